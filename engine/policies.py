"""Abstraction layers: which pre-existing API functions are primitives for a check.
Any other local function (an extracted helper, say) is looked into."""
import re
from terms import *
import interp
from interp import Policy, E


def callee_base(name):
    """Trait/type-qualified name without its Self prefix for functions-traits"""
    return name


SHAPE_OPS = {"scalar_op", "elementwise", "broadcast", "matmul", "transpose", "slice", "pick", "concat",
             "batch_pick", "batch_slice", "batch_concat"}
SHAPE_PURE = {"Shape::new", "Shape::resize_dim", "Shape::resize_batch", "Shape::lower_volume",
              "Shape::has_same_dims", "Shape::has_same_loo_dims",
              "Shape::has_compatible_batch"}


def is_shape_op(n):
    return n.startswith("shape_ops::") and n.split("::")[1] in SHAPE_OPS


class ShapeLayer(Policy):
    """everything above the shape algebra: Shape methods and shape_ops are pure primitives"""

    def pure(self, it, ref):
        n = ref.name(it)
        return n in SHAPE_PURE or is_shape_op(n)

    def opaque(self, it, ref):
        return self.pure(it, ref)

    def model(self, it, ref):
        n = ref.name(it)
        if n == "Shape.Index<u32>::index":
            return m_dim
        if n == "Shape::lower_volume":
            return m_lvol
        if n in ("Shape.PartialEq<Shape>::eq",):
            return m_eq
        if n in ("Shape.PartialEq<Shape>::ne",):
            return m_ne
        if n in ("Device.PartialEq<Device>::eq",):
            return m_eq
        if n in ("Device.PartialEq<Device>::ne",):
            return m_ne
        if n in ("Shape::update_dim", "Shape::update_batch"):
            return m_upd
        return None


def m_dim(it, fr, st, ref, vals, eff, span, site, dty):
    return mk("dim", it.snap(st, vals[0]), it.snap(st, vals[1]))


def m_lvol(it, fr, st, ref, vals, eff, span, site, dty):
    d = it.snap(st, vals[1])
    if d is ZERO:
        return ONE
    return mk("lvol", it.snap(st, vals[0]), d)


def m_eq(it, fr, st, ref, vals, eff, span, site, dty):
    return ceq(it.snap(st, vals[0]), it.snap(st, vals[1]))


def m_ne(it, fr, st, ref, vals, eff, span, site, dty):
    return bnot(ceq(it.snap(st, vals[0]), it.snap(st, vals[1])))


def m_upd(it, fr, st, ref, vals, eff, span, site, dty):
    import models
    n = ref.name(it).replace("update_", "resize_")
    v = mk("call", n, *[it.snap(st, x) for x in vals])
    models.store_through(it, fr, st, vals[0], v, eff, span)
    return tup()


FN_TRAITS = ("BasicFunctions", "ArithmeticFunctions", "RandomFunctions", "BasicDeviceFunctions",
             "ArithmeticDeviceFunctions", "RandomDeviceFunctions", "ContribFunctions")
OPS = ("Add", "Sub", "Mul", "Div", "AddAssign", "SubAssign", "MulAssign", "Neg")


def is_tensor_api(n):
    m = re.match(r"^(&?\w+)\.(\w+)(<.*>)?::(\w+)$", n)
    if not m:
        return False
    st, tr = m.group(1), m.group(2)
    if tr in FN_TRAITS:
        return True
    if tr in OPS and (st in ("Tensor", "Node") or (m.group(3) or "").strip("<>") in ("Tensor", "Node")):
        return True
    return False


class KernelLayer(ShapeLayer):
    """kernel bodies: tensor-level calls are primitives"""

    def opaque(self, it, ref):
        n = ref.name(it)
        return self.pure(it, ref) or is_tensor_api(n) or n.startswith("Device::") or n in (
            "Tensor::alloc", "Tensor::reset", "Tensor::new")


DISPATCH = ("Device::call_fw_impl", "Device::call_fw_u32_impl", "Device::call_fw_f32_impl", "Device::call_bw_impl")


class DeviceLayer(ShapeLayer):
    """device-level functions: kernel dispatch and tensor allocation are primitives"""

    def opaque(self, it, ref):
        n = ref.name(it)
        return self.pure(it, ref) or n in DISPATCH or n in ("Tensor::alloc", "Tensor::reset", "Tensor::new")


class RegistryLayer(Policy):
    """construction of the device: the registration functions are primitives"""

    def opaque(self, it, ref):
        n = ref.name(it)
        return n.startswith("Device::register_") or n == "Device::new"


class ShapeOpsLayer(ShapeLayer):
    """the shape rules themselves: Shape methods are primitives"""

    def pure(self, it, ref):
        return ref.name(it) in SHAPE_PURE


class OperatorLayer(ShapeLayer):
    """graph operators: device-level operations are primitives, tensor-level sugar is looked into"""

    def opaque(self, it, ref):
        n = ref.name(it)
        return self.pure(it, ref) or (n.startswith("Device.") and "DeviceFunctions::" in n) or n in DISPATCH or n in (
            "Tensor::alloc", "Tensor::reset", "Tensor::new", "Tensor::replace", "Tensor::refer", "Device::reset_tensor",
            "Device::copy_tensor", "Device::reset_tensor_by_tensor")


TENSOR_COMPOSITE = {"ln_softmax", "softmax", "softmax_cross_entropy", "sparse_softmax_cross_entropy", "flatten", "reshape",
                    "relu", "lrelu", "split", "batch_split", "shape"}


class TensorLayer(OperatorLayer):
    """code written against tensors: device operations, operator overloads and one-to-one tensor functions are primitives"""

    def opaque(self, it, ref):
        n = ref.name(it)
        if OperatorLayer.opaque(self, it, ref):
            return True
        if re.match(r"^(Tensor|f32)\.(%s)<" % "|".join(OPS), n) and "Node" not in n:
            return True
        if n == "Tensor.Neg::neg":
            return True
        if n.startswith("Tensor.BasicFunctions::"):
            return n.split("::")[1] not in TENSOR_COMPOSITE
        return n in ("Device::new_tensor_by_constant", "Device::new_tensor_by_slice", "Device::tensor_to_float", "Device::tensor_to_vector",
                     "Device::reset_tensor_by_slice")


class NodeLayer(TensorLayer):
    """code written against nodes: operator construction and node creation are primitives"""

    def opaque(self, it, ref):
        n = ref.name(it)
        if TensorLayer.opaque(self, it, ref):
            return True
        if re.match(r"^(Node<>|Node|f32)\.(%s)<" % "|".join(OPS), n) or n in ("Node<>.Neg::neg", "Node.Neg::neg"):
            return True
        m = re.match(r"^Node(<>)?\.BasicFunctions::(\w+)$", n)
        if m:
            return m.group(2) not in TENSOR_COMPOSITE
        return n in ("Node::create", "Node::inner_value", "Node::forward", "Node::backward", "Node::inner_gradient") or is_opnew(it, n)


def is_opnew(it, n):
    return n.endswith("::new") and n[:-5] in opnames(it.prog)


def opnames(prog):
    r = getattr(prog, "_opnames", None)
    if r is None:
        r = prog._opnames = {prog.fname(f).split(".")[0] for f in prog.fns.values() if ".Operator::forward" in prog.fname(f)}
    return r


class GraphLayer(TensorLayer):
    """graph construction and traversal: everything done to tensors and shapes is a primitive"""

    def opaque(self, it, ref):
        n = ref.name(it)
        return TensorLayer.opaque(self, it, ref) or n.startswith(("Tensor::", "Device::", "Device.")) or is_opnew(it, n)


class ModelLayer(GraphLayer):
    """models: enumerating the parameters of a part and moving a tensor are primitives"""

    def opaque(self, it, ref):
        n = ref.name(it)
        return GraphLayer.opaque(self, it, ref) or ".Model::" in n or n.startswith("Model::") or n == "Parameter::move_to_device"


class OptLayer(TensorLayer):
    """optimizers: every tensor-level call is an effect, so that values are read in program order"""

    def opaque(self, it, ref):
        n = ref.name(it)
        if n.startswith("Tensor.BasicFunctions::"):
            return True
        return TensorLayer.opaque(self, it, ref)

    def model(self, it, ref):
        n = ref.name(it)
        if n.startswith("f32.") and "<Tensor" in n:
            return m_effect
        return TensorLayer.model(self, it, ref)


def m_effect(it, fr, st, ref, vals, eff, span, site, dty):
    return it.opaque_call(fr, st, ref, ref.name(it), vals, eff, span)


BUFFER_PRIMS = ("Device::new_handle", "Device::drop_handle", "MemoryPool::new_handle", "MemoryPool::drop_handle",
                "DeviceImpl.DeviceImpl::new_handle", "DeviceImpl.DeviceImpl::drop_handle")


class OwnLayer(ShapeLayer):
    """who holds which device buffer: acquiring and releasing a buffer are primitives"""

    def opaque(self, it, ref):
        n = ref.name(it)
        return self.pure(it, ref) or n in DISPATCH or n in BUFFER_PRIMS


class PoolLayer(ShapeLayer):
    """the memory pool: the backing device's allocation functions and the pool's containers are primitives"""

    def opaque(self, it, ref):
        n = ref.name(it)
        return self.pure(it, ref) or n in BUFFER_PRIMS[4:]

    def model(self, it, ref):
        n = ref.name(it)
        if re.match(r"^(Vec|VecDeque|HashMap|BTreeMap|HashSet)::(push|push_back|pop|pop_back|pop_front|swap_remove|remove|insert|append|extend|clear|drain|truncate|split_off)$", n):
            return m_effect
        return ShapeLayer.model(self, it, ref)


class InitLayer(TensorLayer):
    """initializers: allocating, filling, replacing and creating tensors are primitives, in program order"""

    def opaque(self, it, ref):
        n = ref.name(it)
        return TensorLayer.opaque(self, it, ref) or n in ("Tensor::alloc", "Tensor::reset", "Tensor::replace", "Tensor::refer", "Tensor::new",
                                                          "Initializer.Initializer::apply", "Device::reset_tensor",
                                                          "Device::reset_tensor_by_tensor", "Device::copy_tensor")


class TableLayer(Policy):
    """the dispatch routines: creating and copying tensors are primitives"""

    def opaque(self, it, ref):
        return ref.name(it) in ("Device::copy_tensor", "Device::new_tensor", "Device::new_tensor_by_constant", "Device::new_tensor_by_slice",
                                "Device::reset_tensor", "Device::reset_tensor_by_tensor", "Device::reset_tensor_by_slice", "Tensor::new", "Tensor::alloc") or ref.name(it) in BUFFER_PRIMS
