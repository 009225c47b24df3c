"""Which harness decides which property."""

SAFETY = 'C23'

# the stroke modeler in an arbitrary state, its parts by their contracts
def _m(h, props, tprops=(), **kw):
    return dict(spec='modeler.spec.cc', h=h, props=list(props), tprops=list(tprops), kind='state', native=False, opts=dict(join=1), **kw)


_MOVE = ['C03', 'C04', 'C05', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13', 'C14', 'C16', 'C17']
_PRED = ['C03', 'C05', 'C07', 'C08', 'C12', 'C13', 'C14', 'C16', 'C18']
_DOWN = ['C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13', 'C16', 'C17', 'C19']
_MV, _PV = ['rejected', 'accepted'], ['refused', 'predicted']

HARNESS = [
    dict(spec='params.spec.cc', h='h_params', props=['C01'], kind='public', covers=[], cost=10),
    dict(spec='utils.spec.cc', h='h_angle', props=['C14'], kind='public', covers=['angle'], cost=15),
    dict(spec='utils.spec.cc', h='h_angle_path', props=['C14'], kind='public', covers=['path'], cost=18),
    dict(spec='steps.spec.cc', h='h_steps', props=['C07', 'C03'], kind='public', covers=['angle', 'accepted', 'refused'], cost=12),
    dict(spec='position.spec.cc', h='h_step', props=['C09'], kind='public', covers=['step'], cost=5),
    dict(spec='position.spec.cc', h='h_path', props=['C09', 'C05'], kind='public', covers=['path'], cost=10),
    dict(spec='position.spec.cc', h='h_path_times', props=['C08'], kind='public', covers=['path times'], cost=10),
    dict(spec='position.spec.cc', h='h_end', props=['C10', 'C07', 'C05'], kind='public', covers=['end'], cost=170),
    dict(spec='wobble.spec.cc', h='h_wobble', props=['C11', 'C15'], kind='state', native=False, covers=['disabled', 'no duration', 'blend'], cost=20),
    dict(spec='loop.spec.cc', h='h_loop', props=['C16', 'C15'], kind='state', native=False, covers=['disabled', 'enabled'], cost=20),
    dict(spec='stylus.spec.cc', h='h_stylus_update', props=['C12', 'C13', 'C15'], kind='state', native=False, covers=['all missing', 'normal', 'closest'], cost=30, opts=dict(join=1)),
    dict(spec='stylus.spec.cc', h='h_nearest', props=['C13', 'C12', 'C08'], kind='state', native=False, covers=['segment', 'end point'], cost=140, opts=dict(join=1)),
    dict(spec='stylus.spec.cc', h='h_normal', props=['C13', 'C12', 'C08'], kind='state', native=False, covers=['crossing', 'end point'], cost=90, opts=dict(join=1)),
    dict(spec='modeler.spec.cc', h='h_interp', props=['C16', 'C13', 'C14', 'C12'], kind='state', native=False, covers=['interpolation'], cost=15),
    dict(spec='modeler.spec.cc', h='h_interp_same', props=['C08', 'C12', 'C14'], kind='state', native=False, covers=['blend'], cost=25),
    _m('h_move_kalman', _MOVE + ['C21'], covers=_MV, cost=120),
    _m('h_move_end', ['C22'], _MOVE, covers=_MV, cost=120, safety=False),
    _m('h_move_none', [], _MOVE, covers=_MV, cost=120, safety=False),
    _m('h_up_kalman', _MOVE + ['C10'], covers=_MV, cost=140),
    _m('h_up_end', ['C22'], _MOVE + ['C10'], covers=_MV, cost=140, safety=False),
    _m('h_up_none', [], _MOVE + ['C10'], covers=_MV, cost=140, safety=False),
    _m('h_predict_kalman', _PRED, covers=_PV, cost=30),
    _m('h_predict_end', ['C22', 'C18', 'C03'], _PRED, covers=_PV, cost=30, safety=False),
    _m('h_predict_none', ['C03', 'C05', 'C18'], covers=['refused'], cost=10),
    _m('h_down_kalman', _DOWN + ['C21'], covers=_MV, cost=60),
    _m('h_down_end', ['C22', 'C19', 'C06'], _DOWN, covers=_MV, cost=50, safety=False),
    _m('h_down_none', ['C19', 'C06'], _DOWN, covers=_MV, cost=50, safety=False),
    _m('h_bad', ['C03', 'C04'], covers=['no event'], cost=5),
    _m('h_uninit', ['C02', 'C03', 'C04', 'C05', 'C17'], covers=['uninitialised'], cost=5),
    _m('h_reset_kalman', ['C02', 'C19', 'C22'], covers=['refused', 'reset'], cost=5),
    _m('h_reset_end', ['C02', 'C19', 'C22'], covers=['refused', 'reset'], cost=5),
    _m('h_reset_none', ['C02', 'C19'], covers=['refused', 'reset'], cost=5),
    _m('h_reset_same', ['C02', 'C19'], covers=['reset'], cost=5),
    _m('h_save_kalman', ['C17'], covers=['restored'], cost=15),
    _m('h_save_end', ['C17'], covers=['restored'], cost=10),
    _m('h_save_none', ['C17'], covers=['restored'], cost=10),
    _m('h_restore_nothing', ['C17'], covers=['nothing'], cost=5),
]

# Executable histories through the public interface: always run (bounded), and
# used to confirm a failed obligation with a failing input.
_H = ['C02', 'C03', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C20', 'C21', 'C22', 'C23']
_T = ['C02', 'C03', 'C04', 'C17', 'C18', 'C19', 'C23']
FUZZ = [
    dict(spec='api.spec.cc', h='h_history', props=_H, secs=5),
    dict(spec='api.spec.cc', h='h_twins', props=_T, secs=5),
]

TRUSTED = [
    'clang-18 front end at -O0 (C++ to LLVM IR)',
    'the VC generator engine/*.py (IR semantics, memory model, loop cutting)',
    'the IEEE-754 lemma schemas of engine/fp.py (validated by engine/lemmas.py)',
    'z3 and cvc5',
    'the specification headers shim/sym (containers as mathematical sequences) standing for libstdc++ vector/deque and absl::Status',
]
ASSUMPTIONS = [
    'allocation never fails',
    'sequences hold fewer than 2^30 elements on entry',
]
PROP_ASSUMPTIONS = {}
