"""Small integer-valued problems: custom cost functions whose errors are exact."""
import torch
import theseus as th


class ToyCost(th.CostFunction):
    """err = sum_k A_k x_k + sum_j B_j a_j + c, all integer matrices.

    A_k: [dim, dof_k] nested ints; B_j: [dim, dof_j]; c: [dim]."""

    def __init__(self, optim, aux, weight, A, B, c, name=None):
        super().__init__(weight, name=name)
        self._A, self._B, self._c = A, B, c
        for i, v in enumerate(optim):
            setattr(self, f"ov{i}", v)
            self.register_optim_var(f"ov{i}")
        for i, v in enumerate(aux):
            setattr(self, f"av{i}", v)
            self.register_aux_var(f"av{i}")

    def _mat(self, m):
        ref = next(iter(self.optim_vars)).tensor
        return torch.tensor(m, dtype=ref.dtype)

    def error(self):
        out = 0
        for A, v in zip(self._A, self.optim_vars):
            out = out + v.tensor @ self._mat(A).t()
        for B, v in zip(self._B, self.aux_vars):
            out = out + v.tensor @ self._mat(B).t()
        return out + self._mat(self._c).view(1, -1)

    def jacobians(self):
        e = self.error()
        b = e.shape[0]
        return [
            self._mat(A).unsqueeze(0).expand(b, -1, -1).clone() for A in self._A
        ], e

    def dim(self):
        return len(self._c)

    def _copy_impl(self, new_name=None):
        return ToyCost(
            [v.copy() for v in self.optim_vars],
            [v.copy() for v in self.aux_vars],
            self.weight.copy(),
            self._A,
            self._B,
            self._c,
            name=new_name,
        )


class ToyWeight(th.CostWeight):
    """Elementwise weight equal to the product of any number of (b,1) aux variables."""

    def __init__(self, aux, name=None):
        super().__init__(name=name)
        for i, v in enumerate(aux):
            setattr(self, f"av{i}", v)
            self.register_aux_var(f"av{i}")

    def _w(self):
        w = 1.0
        for v in self.aux_vars:
            w = w * v.tensor[:, :1]
        return w

    def is_zero(self):
        w = self._w()
        if isinstance(w, float):
            raise NotImplementedError
        return w.squeeze(1) == 0

    def weight_error(self, error):
        return error * self._w()

    def weight_jacobians_and_error(self, jacobians, error):
        w = self._w()
        wj = w if isinstance(w, float) else w.view(-1, 1, 1)
        return [j * wj for j in jacobians], error * w

    def _copy_impl(self, new_name=None):
        return ToyWeight([v.copy() for v in self.aux_vars], name=new_name)


class ToyElemWeight(th.CostWeight):
    """Elementwise diagonal weight held by one (b, d) auxiliary variable."""

    def __init__(self, w, name=None):
        super().__init__(name=name)
        self.w = w
        self.register_aux_var("w")

    def is_zero(self):
        return (self.w.tensor == 0).all(dim=1)

    def weight_error(self, error):
        return error * self.w.tensor

    def weight_jacobians_and_error(self, jacobians, error):
        return [j * self.w.tensor.unsqueeze(2) for j in jacobians], error * self.w.tensor

    def _copy_impl(self, new_name=None):
        return ToyElemWeight(self.w.copy(), name=new_name)


class _Toy(th.CostFunction):
    """Base for fixed-formula integer cost functions."""

    N = 1  # number of optimisation variables

    def __init__(self, *args, name=None):
        super().__init__(args[-1], name=name)
        for i, v in enumerate(args[: self.N]):
            setattr(self, f"ov{i}", v)
            self.register_optim_var(f"ov{i}")
        for i, v in enumerate(args[self.N : -1]):
            setattr(self, f"av{i}", v)
            self.register_aux_var(f"av{i}")

    def _t(self):
        """Tensors of all variables broadcast to one batch size."""
        ts = [v.tensor for v in self.optim_vars] + [v.tensor for v in self.aux_vars]
        b = max(t.shape[0] for t in ts)
        return [t.expand((b,) + t.shape[1:]) for t in ts]

    def dim(self):
        return self.ov0.shape[1]

    def jacobians(self):
        return self._jac(*self._t()), self.error()

    def error(self):
        return self._err(*self._t())

    def _copy_impl(self, new_name=None):
        vs = [v.copy() for v in self.optim_vars] + [v.copy() for v in self.aux_vars]
        return type(self)(*vs, self.weight.copy(), name=new_name)


def _eye(x):
    return torch.diag_embed(torch.ones_like(x))


class ToyDiff(_Toy):
    def _err(self, x, t):
        return x - t

    def _jac(self, x, t):
        return [_eye(x)]


class ToyBtw(_Toy):
    N = 2

    def _err(self, x, y, m):
        return y - x - m

    def _jac(self, x, y, m):
        return [-_eye(x), _eye(x)]


class ToyQuad(_Toy):
    def _err(self, x, a):
        return a * x * x

    def _jac(self, x, a):
        return [torch.diag_embed(2 * a * x)]


class ToyProd(_Toy):
    N = 2

    def _err(self, x, y, a):
        return x * y + a

    def _jac(self, x, y, a):
        return [torch.diag_embed(y), torch.diag_embed(x)]


class ToyRot(_Toy):
    """SO2 variable against a 2-d target: e = (cos, sin) - t."""

    def dim(self):
        return 2

    def _err(self, r, t):
        return r - t

    def _jac(self, r, t):
        return [torch.stack([-r[:, 1], r[:, 0]], dim=1).unsqueeze(2)]
