"""A TensorFlow-1 session whose executor is the simulator's.

``SimSession`` is a ``tf.Session``.  Everything above ``_do_run`` (graph
construction, feed/fetch conversion) is TensorFlow's own code; below it, instead
of handing the pruned graph to TensorFlow's multi-threaded executor, the
dataflow graph is interpreted one operation at a time, and a seeded scheduler
decides which ready operation runs next.  Stateless operations run TensorFlow's
real CPU kernels (through the eager runtime); variables follow the reference
variable semantics of TensorFlow 1: reading a variable yields an *alias* of its
buffer, assignments write that buffer in place (checked against real sessions by
``selftest.py``).

Seams owned here: order of operations, random-number kernels, failures of a
step before / in the middle of / after its execution, and the points at which
another caller thread may run.
"""
from bisect import insort

import numpy as np

from . import env
tf = env.setup()

from tensorflow.python.eager import context as _eager_context  # noqa: E402
from tensorflow.python.framework import ops as _ops  # noqa: E402
from tensorflow.python.framework import dtypes as _dtypes  # noqa: E402
from tensorflow.python.framework import tensor_util as _tensor_util  # noqa: E402
from tensorflow.python import pywrap_tfe as _tfe  # noqa: E402


class HarnessError(Exception):
    """The simulator cannot run this: an error of the check, not a violation."""


class StepLimit(HarnessError):
    pass


DEAD = object()

RANDOM_OPS = {"RandomStandardNormal", "TruncatedNormal", "RandomUniform",
              "RandomUniformInt"}
PASS_OPS = {"Identity", "StopGradient", "PreventGradient", "Snapshot",
            "CheckNumerics", "EnsureShape", "PlaceholderWithDefault",
            "RefIdentity", "LoopCond"}
FLOW_OPS = {"Switch", "RefSwitch", "Merge", "RefMerge", "Enter", "RefEnter",
            "Exit", "RefExit", "NextIteration", "RefNextIteration"}
IMMEDIATE = {"Const", "VariableV2", "Variable", "NoOp", "VarHandleOp",
             "ControlTrigger"}
REF_WRITERS = {"Assign", "AssignAdd", "AssignSub", "ScatterUpdate",
               "ScatterAdd", "ScatterSub", "CountUpTo"}
WRITERS = REF_WRITERS | {"AssignVariableOp", "AssignAddVariableOp",
                         "AssignSubVariableOp"}


class Var(object):
    __slots__ = ("name", "buf", "writes")

    def __init__(self, name):
        self.name = name
        self.buf = None
        self.writes = 0


class _Eager(object):
    """Runs a single stateless operation with TensorFlow's own kernel."""

    def __init__(self):
        self.ready = False
        self.calls = 0

    def init(self):
        if not self.ready:
            with _eager_context.eager_mode():
                ctx = _eager_context.context()
                ctx.ensure_initialized()
                self.ctx = ctx
                self.dev = ctx.device_name
                self.handle = ctx._handle
            self.ready = True

    def run(self, op_type, inputs, dtypes, attrs, n_out):
        self.calls += 1
        tensors = [_ops.EagerTensor(value, self.dev, dt)
                   for value, dt in zip(inputs, dtypes)]
        out = _tfe.TFE_Py_Execute(self.handle, self.dev, op_type, tensors,
                                  attrs, n_out)
        return [np.array(t._numpy()) for t in out]


EAGER = _Eager()


def _attr_value(value):
    kind = value.WhichOneof("value")
    if kind == "type":
        return int(value.type)
    if kind == "i":
        return int(value.i)
    if kind == "f":
        return float(value.f)
    if kind == "b":
        return bool(value.b)
    if kind == "s":
        return value.s
    if kind == "shape":
        shape = value.shape
        if shape.unknown_rank:
            return None
        return [d.size for d in shape.dim]
    if kind == "list":
        lst = value.list
        if lst.type:
            return [int(t) for t in lst.type]
        if lst.i:
            return [int(i) for i in lst.i]
        if lst.f:
            return [float(f) for f in lst.f]
        if lst.s:
            return list(lst.s)
        if lst.b:
            return [bool(b) for b in lst.b]
        if lst.shape:
            return [[d.size for d in s.dim] for s in lst.shape]
        return []
    raise HarnessError("attribute kind %r" % kind)


class Node(object):
    """Static, per-graph information on one operation."""

    __slots__ = ("op", "idx", "type", "name", "inputs", "controls", "n_out",
                 "attrs", "in_dtypes", "const", "is_ref_in", "frame_name",
                 "is_constant", "shape_attr", "np_out")

    def __init__(self, op, idx):
        self.op = op
        self.idx = idx
        self.type = op.type
        self.name = op.name
        self.inputs = [(t.op.name, t.value_index) for t in op.inputs]
        self.controls = [c.name for c in op.control_inputs]
        self.n_out = len(op.outputs)
        self.attrs = None
        self.in_dtypes = [t.dtype.base_dtype.as_datatype_enum
                          for t in op.inputs]
        self.is_ref_in = [t.dtype._is_ref_dtype for t in op.inputs]
        self.const = None
        self.frame_name = None
        self.is_constant = False
        if self.type == "Const":
            self.const = _tensor_util.MakeNdarray(op.node_def.attr["value"].tensor)
        elif self.type in ("Enter", "RefEnter"):
            self.frame_name = op.node_def.attr["frame_name"].s
            self.is_constant = op.node_def.attr["is_constant"].b

    def eager_attrs(self):
        if self.attrs is None:
            flat = []
            node_def = self.op.node_def
            for attr in self.op.op_def.attr:
                value = node_def.attr[attr.name]
                flat.append(attr.name)
                flat.append(_attr_value(value))
            self.attrs = tuple(flat)
        return self.attrs


class Frame(object):
    def __init__(self, name, parent, parent_iter, serial):
        self.name = name
        self.parent = parent
        self.parent_iter = parent_iter
        self.serial = serial
        self.constants = []       # (node, value) of constant Enters
        self.iters = set()


class SimBackend(object):
    """The state behind one or more sessions: variables, random kernels."""

    def __init__(self, world):
        self.world = world
        self.vars = {}
        self.rng_count = {}
        self.session_serial = world.next_serial()


class RunPlan(object):
    """Pruned subgraph of one (fetches, targets, feeds) signature."""

    def __init__(self, session, targets, fetches, feeds):
        nodes = {}
        order = []
        stack = list(targets) + [f[0] for f in fetches if f not in feeds]
        while stack:
            name = stack.pop()
            if name in nodes:
                continue
            node = session.sim_node(name)
            nodes[name] = node
            order.append(node)
            for inp in node.inputs:
                if inp not in feeds:
                    stack.append(inp[0])
            for ctrl in node.controls:
                if (ctrl, 0) in feeds and \
                        session.sim_node(ctrl).type in ("Placeholder", "PlaceholderV2"):
                    continue
                stack.append(ctrl)
        self.nodes = nodes
        order.sort(key=lambda n: n.idx)
        self.order = order
        self.consumers = {n.name: [] for n in order}    # -> (node, slot, out_idx)
        self.ctrl_consumers = {n.name: [] for n in order}
        self.n_data = {}
        self.n_ctrl = {}
        self.fed_inputs = {}
        for node in order:
            live = 0
            for slot, inp in enumerate(node.inputs):
                if inp in feeds:
                    self.fed_inputs.setdefault(node.name, []).append((slot, inp))
                else:
                    self.consumers[inp[0]].append((node, slot, inp[1]))
                    live += 1
            self.n_data[node.name] = live
            ctrl = 0
            for name in node.controls:
                if name in nodes:
                    self.ctrl_consumers[name].append(node)
                    ctrl += 1
            self.n_ctrl[node.name] = ctrl
        self.has_flow = any(n.type in FLOW_OPS for n in order)


class _State(object):
    __slots__ = ("node", "frame", "it", "data", "ctrl", "inputs", "dead",
                 "done", "live_seen", "dead_seen")

    def __init__(self, node, frame, it, n_data, n_ctrl):
        self.node = node
        self.frame = frame
        self.it = it
        self.data = n_data
        self.ctrl = n_ctrl
        self.inputs = [None] * len(node.inputs)
        self.dead = False
        self.done = False
        self.live_seen = None
        self.dead_seen = 0

    def key(self):
        return (self.node.idx, self.frame.serial, self.it)

    def __lt__(self, other):
        return self.key() < other.key()


class SimSession(tf.Session):
    """tf.Session with a simulated executor."""

    def __init__(self, world, graph=None, backend=None):
        EAGER.init()
        super().__init__(graph=graph)
        self.world = world
        self.backend = backend or SimBackend(world)
        self._sim_nodes = {}
        self._sim_plans = {}

    # -- static graph ----------------------------------------------------
    def sim_node(self, name):
        node = self._sim_nodes.get(name)
        if node is None:
            op = self.graph.get_operation_by_name(name)
            node = Node(op, op._id if hasattr(op, "_id") else len(self._sim_nodes))
            self._sim_nodes[name] = node
        elif node.inputs != [(t.op.name, t.value_index) for t in node.op.inputs]:
            raise HarnessError("operation %s was rewired" % name)
        return node

    def _plan(self, targets, fetches, feeds):
        key = (targets, fetches, feeds)
        plan = self._sim_plans.get(key)
        if plan is None:
            plan = RunPlan(self, targets, fetches, feeds)
            self._sim_plans[key] = plan
        return plan

    # -- the seam --------------------------------------------------------
    def _do_run(self, handle, target_list, fetch_list, feed_dict, options,
                run_metadata):
        if handle is not None:
            raise HarnessError("partial_run is not simulated")
        feeds = {}
        for ref, value in feed_dict.items():
            tensor = ref.deref()
            feeds[(tensor.op.name, tensor.value_index)] = np.array(value)
        fetches = tuple((t.op.name, t.value_index) for t in fetch_list)
        targets = tuple(op.name for op in target_list)
        return Execution(self, targets, fetches, feeds).run()


class Execution(object):
    """One session.run."""

    def __init__(self, session, targets, fetches, feeds):
        self.session = session
        self.world = session.world
        self.backend = session.backend
        self.fetches = fetches
        self.feeds = feeds
        self.plan = session._plan(targets, fetches, frozenset(feeds))
        self.root = Frame(None, None, None, 0)
        self.frames = {}
        self.n_frames = 1
        self.states = {}
        self.ready = []
        self.fetched = {}
        self.pending_immediate = []
        self.executed = 0
        self.serial = None

    # dataflow -----------------------------------------------------------
    def _state(self, node, frame, it):
        key = (node.name, frame.serial, it)
        state = self.states.get(key)
        if state is None:
            state = _State(node, frame, it, self.plan.n_data[node.name],
                           self.plan.n_ctrl[node.name])
            for slot, inp in self.plan.fed_inputs.get(node.name, ()):
                state.inputs[slot] = self.feeds[inp]
            self.states[key] = state
        return state

    def _enqueue(self, state):
        if state.done:
            return
        state.done = True
        if state.dead or state.node.type in IMMEDIATE:
            self.pending_immediate.append(state)
        else:
            insort(self.ready, state)

    def _ensure_iter(self, frame, it):
        if it in frame.iters:
            return
        frame.iters.add(it)
        for node, value in frame.constants:
            self._deliver(node, [value], frame, it, only_data=False)

    def _deliver(self, node, outputs, frame, it, only_data=False):
        """Outputs of ``node`` become visible in (frame, it)."""
        for dst, slot, out in self.plan.consumers[node.name]:
            value = outputs[out]
            state = self._state(dst, frame, it)
            state.data -= 1
            if dst.type in ("Merge", "RefMerge"):
                if value is DEAD:
                    state.dead_seen += 1
                elif state.live_seen is None:
                    state.live_seen = (value, slot)
                self._check_merge(state)
            else:
                if value is DEAD:
                    state.dead = True
                state.inputs[slot] = value
                if state.data == 0 and state.ctrl == 0:
                    self._enqueue(state)
        dead = bool(outputs) and all(o is DEAD for o in outputs)
        if node.type in ("Switch", "RefSwitch"):
            dead = False
        self._deliver_ctrl(node, dead, frame, it)

    def _deliver_ctrl(self, node, dead, frame, it):
        for dst in self.plan.ctrl_consumers[node.name]:
            state = self._state(dst, frame, it)
            state.ctrl -= 1
            if dst.type in ("Merge", "RefMerge"):
                self._check_merge(state)
                continue
            if dead and dst.type != "ControlTrigger":
                state.dead = True
            if state.data == 0 and state.ctrl == 0:
                self._enqueue(state)

    def _check_merge(self, state):
        if state.done or state.ctrl > 0:
            return
        if state.live_seen is not None:
            self._enqueue(state)
        elif state.dead_seen == len(state.node.inputs):
            state.dead = True
            self._enqueue(state)
        elif state.dead_seen > 0:
            # a loop's Merge whose Enter is dead: the back edge never fires
            back = sum(1 for i in state.node.inputs
                       if self.plan.nodes.get(i[0]) is not None and
                       self.plan.nodes[i[0]].type in ("NextIteration", "RefNextIteration"))
            if state.it == 0 and back and \
                    state.dead_seen == len(state.node.inputs) - back:
                state.dead = True
                self._enqueue(state)

    def _emit(self, state, outputs):
        node, frame, it = state.node, state.frame, state.it
        kind = node.type
        if kind in ("Enter", "RefEnter"):
            key = (node.frame_name, frame.serial, it)
            child = self.frames.get(key)
            if child is None:
                child = Frame(node.frame_name, frame, it, self.n_frames)
                self.n_frames += 1
                self.frames[key] = child
                child.iters.add(0)
            if node.is_constant:
                child.constants.append((node, outputs[0]))
                for k in sorted(child.iters):
                    self._deliver(node, outputs, child, k)
            else:
                self._deliver(node, outputs, child, 0)
            return
        if kind in ("Exit", "RefExit"):
            if outputs[0] is DEAD:
                return
            frame, it = frame.parent, frame.parent_iter
        elif kind in ("NextIteration", "RefNextIteration"):
            if outputs[0] is DEAD:
                return
            it = it + 1
            if it > 100000:
                raise StepLimit("loop did not end")
            self._ensure_iter(frame, it)
        elif frame is self.root:
            for i, value in enumerate(outputs):
                self.fetched[(node.name, i)] = value
        if kind in ("Exit", "RefExit") and frame is self.root:
            self.fetched[(node.name, 0)] = outputs[0]
        self._deliver(node, outputs, frame, it)

    # running ------------------------------------------------------------
    def run(self):
        world = self.world
        entry = world.begin_run(self)
        self.serial = entry[1]
        fault = world.take_session_fault()
        if fault is not None and fault["when"] == "pre":
            world.fault_fired("session_pre", fault["exc"])
            raise make_error(fault["exc"], "injected before the step ran")
        schedulable = sum(1 for n in self.plan.order if n.type not in IMMEDIATE)
        cut = None
        if fault is not None and fault["when"] == "mid":
            cut = min(schedulable, int(fault["at"] * schedulable))
        for node in self.plan.order:
            if self.plan.n_data[node.name] == 0 and self.plan.n_ctrl[node.name] == 0:
                self._enqueue(self._state(node, self.root, 0))
        policy = world.policy.start(self)
        entry[0] = "any"
        trail = []
        while True:
            while self.pending_immediate:
                state = self.pending_immediate.pop()
                self._step(state)
            if not self.ready:
                break
            if cut is not None and self.executed >= cut:
                world.fault_fired("session_mid", fault["exc"])
                world.end_run(self, trail)
                raise make_error(fault["exc"], "injected after %d of %d operations"
                                 % (self.executed, schedulable))
            index = world.choose(policy, self.ready)
            state = self.ready.pop(index)
            trail.append(state.node.idx)
            self.executed += 1
            if self.executed > 400000:
                raise StepLimit("run did not end")
            self._step(state)
            world.after_op(self, state.node)
        entry[0] = "all"
        world.end_run(self, trail)
        results = []
        for fetch in self.fetches:
            if fetch in self.feeds:
                value = self.feeds[fetch]
            else:
                if fetch not in self.fetched:
                    raise HarnessError("fetch %s:%d was not computed" % fetch)
                value = self.fetched[fetch]
            if value is DEAD:
                raise make_error("InvalidArgumentError", "dead tensor fetched: %s" % (fetch,))
            if isinstance(value, Var):
                value = self._deref(value)
            value = np.array(value)
            results.append(value[()] if value.ndim == 0 else value)
        if fault is not None and fault["when"] == "post":
            world.fault_fired("session_post", fault["exc"])
            raise make_error(fault["exc"], "injected after the step ran")
        return results

    def _deref(self, var):
        if var.buf is None:
            raise make_error("FailedPreconditionError",
                             "Attempting to use uninitialized value " + var.name)
        return var.buf

    def _step(self, state):
        node = state.node
        if node.type in ("Merge", "RefMerge"):
            if state.dead:
                self._emit(state, [DEAD, DEAD])
            else:
                value, slot = state.live_seen
                self._emit(state, [value, np.int32(slot)])
            return
        if state.dead:
            self._emit(state, [DEAD] * node.n_out)
            return
        outputs = self._execute(node, state.inputs, state)
        self._emit(state, outputs)

    def _execute(self, node, inputs, state):
        kind = node.type
        if kind == "Const":
            return [node.const]
        if kind in ("VariableV2", "Variable", "VarHandleOp"):
            var = self.backend.vars.get(node.name)
            if var is None:
                var = self.backend.vars[node.name] = Var(node.name)
            return [var]
        if kind in ("NoOp", "ControlTrigger"):
            return []
        if kind in ("Placeholder", "PlaceholderV2"):
            if (node.name, 0) in self.feeds:
                return [self.feeds[(node.name, 0)]]
            raise make_error("InvalidArgumentError",
                             "You must feed a value for placeholder tensor '%s'" % node.name)
        if kind in ("IsVariableInitialized", "VarIsInitializedOp"):
            return [np.bool_(inputs[0].buf is not None)]
        if kind in REF_WRITERS:
            return self._write(node, inputs)
        if kind in ("AssignVariableOp", "AssignAddVariableOp", "AssignSubVariableOp"):
            var, value = inputs[0], self._value(inputs[1])
            var.writes += 1
            if kind == "AssignVariableOp":
                var.buf = np.array(value)
            elif kind == "AssignAddVariableOp":
                var.buf = self._deref(var) + value
            else:
                var.buf = self._deref(var) - value
            return []
        if kind == "ReadVariableOp":
            return [np.array(self._deref(inputs[0]))]
        if kind in ("Switch", "RefSwitch"):
            pred = bool(self._value(inputs[1]))
            data = inputs[0]
            if kind == "Switch":
                data = self._value(data)
            return [DEAD, data] if pred else [data, DEAD]
        if kind in ("RefEnter", "RefExit", "RefNextIteration", "RefIdentity"):
            return [inputs[0]]
        if kind in ("Enter", "Exit", "NextIteration"):
            return [self._value(inputs[0])]

        values = [self._value(v) for v in inputs]
        if kind in PASS_OPS:
            return [values[0]]
        if kind == "IdentityN":
            return list(values)
        if kind == "Reshape":
            return [values[0].reshape([int(d) for d in np.ravel(values[1])])
                    if isinstance(values[0], np.ndarray)
                    else np.reshape(values[0], [int(d) for d in np.ravel(values[1])])]
        if kind == "ExpandDims":
            return [np.expand_dims(values[0], int(np.ravel(values[1])[0]))]
        if kind in RANDOM_OPS:
            return [self._random(node, values)]
        if kind in ("Assert",):
            if not bool(values[0]):
                raise make_error("InvalidArgumentError", "assertion failed: %s" % node.name)
            return []
        if kind == "Print":
            return [values[0]]
        if kind == "PrintV2":
            return []
        if kind in ("PyFunc", "PyFuncStateless", "EagerPyFunc"):
            from tensorflow.python.ops import script_ops
            out = script_ops._py_funcs(node.op.node_def.attr["token"].s.decode(), None, values)
            return list(out) if isinstance(out, (list, tuple)) else [np.asarray(out)]
        handler = _STATEFUL.get(kind)
        if handler is not None:
            return handler(node, values)
        if node.op.op_def.is_stateful:
            raise HarnessError("stateful operation %s is not simulated" % kind)
        self.world.real_kernel_calls += 1
        try:
            return EAGER.run(kind, values, node.in_dtypes, node.eager_attrs(),
                             node.n_out)
        except tf.errors.OpError:
            raise
        except _core_error() as error:
            raise make_error("InvalidArgumentError", "%s: %s" % (node.name, error))

    def _value(self, value):
        return self._deref(value) if isinstance(value, Var) else value

    def _write(self, node, inputs):
        var = inputs[0]
        var.writes += 1
        value = np.asarray(self._value(inputs[1]))
        kind = node.type
        if kind == "Assign":
            if var.buf is not None and var.buf.shape == value.shape \
                    and var.buf.dtype == value.dtype:
                var.buf[...] = value
            else:
                var.buf = np.array(value)
            return [var]
        buf = self._deref(var)
        if kind in ("AssignAdd", "AssignSub"):
            if buf.shape != value.shape:
                raise make_error("InvalidArgumentError", "shape mismatch in %s" % node.name)
            if kind == "AssignAdd":
                buf[...] = buf + value
            else:
                buf[...] = buf - value
            return [var]
        if kind in ("ScatterUpdate", "ScatterAdd", "ScatterSub"):
            index = self._value(inputs[1])
            update = self._value(inputs[2])
            for k, i in enumerate(np.ravel(index)):
                piece = update if np.ndim(update) == 0 else \
                    np.reshape(update, (-1,) + buf.shape[1:])[k]
                if kind == "ScatterUpdate":
                    buf[i] = piece
                elif kind == "ScatterAdd":
                    buf[i] += piece
                else:
                    buf[i] -= piece
            return [var]
        raise HarnessError(kind)

    def _random(self, node, values):
        node_def = node.op.node_def
        seeds = (int(node_def.attr["seed"].i), int(node_def.attr["seed2"].i))
        dtype = _dtypes.as_dtype(node_def.attr["dtype"].type or
                                 node_def.attr["Tout"].type).as_numpy_dtype
        shape = tuple(int(d) for d in np.ravel(values[0]))
        count = self.backend.rng_count.get(node.name, 0)
        self.backend.rng_count[node.name] = count + 1
        return np.asarray(self.world.noise.draw(
            self, node, seeds, count, shape, dtype, values[1:]), dtype=dtype)


def _core_error():
    from tensorflow.python.eager import core
    return (core._NotOkStatusException,)


# -- TensorArray and Stack, used by map_fn / while_loop gradients -------------

class _TensorArray(object):
    def __init__(self, size):
        self.items = [None] * size
        self.grads = {}


class _Stack(object):
    def __init__(self):
        self.items = []


class _Box(object):
    """A resource handle travelling through the graph."""
    __slots__ = ("obj",)
    shape = ()

    def __init__(self, obj):
        self.obj = obj


def _ta_new(node, values):
    return [_Box(_TensorArray(int(values[0]))), np.float32(0.)]


def _ta_write(node, values):
    array, index, value = values[0].obj, int(values[1]), values[2]
    while len(array.items) <= index:
        array.items.append(None)
    if array.items[index] is not None and getattr(array, "is_grad", False):
        array.items[index] = array.items[index] + value
    else:
        array.items[index] = np.array(value)
    return [np.float32(0.)]


def _ta_read(node, values):
    array, index = values[0].obj, int(values[1])
    item = array.items[index]
    if item is None:
        if getattr(array, "is_grad", False):
            item = np.zeros_like(array.forward.items[index])
        else:
            raise make_error("InvalidArgumentError", "TensorArray index not written")
    return [item]


def _ta_gather(node, values):
    array = values[0].obj
    return [np.stack([_ta_read(node, (values[0], np.int32(i), None))[0]
                      for i in np.ravel(values[1])])]


def _ta_scatter(node, values):
    for k, i in enumerate(np.ravel(values[1])):
        _ta_write(node, (values[0], np.int32(i), values[2][k]))
    return [np.float32(0.)]


def _ta_size(node, values):
    return [np.int32(len(values[0].obj.items))]


def _ta_grad(node, values):
    forward = values[0].obj
    source = node.op.node_def.attr["source"].s
    grad = forward.grads.get(source)
    if grad is None:
        grad = _TensorArray(len(forward.items))
        grad.is_grad = True
        grad.forward = forward
        forward.grads[source] = grad
    return [_Box(grad), np.float32(0.)]


def _stack_new(node, values):
    return [_Box(_Stack())]


def _stack_push(node, values):
    values[0].obj.items.append(np.array(values[1]))
    return [values[1]]


def _stack_pop(node, values):
    return [values[0].obj.items.pop()]


_STATEFUL = {
    "TensorArrayV3": _ta_new, "TensorArrayWriteV3": _ta_write,
    "TensorArrayReadV3": _ta_read, "TensorArrayGatherV3": _ta_gather,
    "TensorArrayScatterV3": _ta_scatter, "TensorArraySizeV3": _ta_size,
    "TensorArrayGradV3": _ta_grad, "TensorArrayCloseV3": lambda n, v: [],
    "StackV2": _stack_new, "StackPushV2": _stack_push,
    "StackPopV2": _stack_pop, "StackCloseV2": lambda n, v: [],
}


def make_error(name, message):
    if name == "KeyboardInterrupt":
        return KeyboardInterrupt(message)
    if name == "MemoryError":
        return MemoryError(message)
    if name == "RuntimeError":
        return RuntimeError(message)
    return getattr(tf.errors, name)(None, None, message)
