"""An arbitrary kernel: only the kernel laws are known of it (C08/C09).

Gen is a StateSpaceModel whose matrices are free parameters: feedback F =
V diag(lam) V^-1 (every diagonalizable F), any noise effect matrix and density
(Pinf solves the Lyapunov equation), any observation row, possibly varying
with the coordinate, any reset matrix.  Proving a composite or a solver for
Gen proves it for every kernel of that state dimension that satisfies the laws.
"""
import equinox as eqx
import jax.numpy as jnp
from smolgp.kernels.base import StateSpaceModel


class Gen(StateSpaceModel):
    V: object
    lam: object
    L: object
    C: object       # Qc = C + C.T (symmetric)
    H0: object
    H1: object
    R: object

    def __init__(self, name, V, lam, L, C, H0, H1=None, R=None):
        self.name = name
        self.V, self.lam, self.L, self.C, self.H0 = V, lam, L, C, H0
        self.H1 = jnp.zeros_like(H0) if H1 is None else H1
        self.R = jnp.eye(V.shape[0]) if R is None else R

    @property
    def d(self):
        return self.V.shape[0]

    def design_matrix(self):
        return self.V @ jnp.diag(self.lam) @ jnp.linalg.inv(self.V)

    def noise_effect_matrix(self):
        return self.L

    def noise(self):
        return self.C + self.C.T

    def stationary_covariance(self):
        # Lyapunov in the eigenbasis of F
        Vi = jnp.linalg.inv(self.V)
        B = Vi @ self.L @ self.noise() @ self.L.T @ Vi.T
        return self.V @ (-B / (self.lam[:, None] + self.lam[None, :])) @ self.V.T

    def observation_matrix(self, X):
        t = X[0] if isinstance(X, tuple) else X
        return self.H0 + t * self.H1

    def transition_matrix(self, X1, X2):
        dt = self.coord_to_sortable(X2) - self.coord_to_sortable(X1)
        return self.V @ jnp.diag(jnp.exp(self.lam * dt)) @ jnp.linalg.inv(self.V)

    def process_noise(self, X1, X2):
        P = self.stationary_covariance()
        A = self.transition_matrix(X1, X2)
        return P - A @ P @ A.T

    def reset_matrix(self, instid=0):
        return self.R * (1.0 + 1.0 * instid)


def gen_pars(tag, d, r, Par, hvar=True):
    return [Par(f"V{tag}", "real", .3, 3, shape=(d, d)), Par(f"lam{tag}", "neg", .2, 2, shape=(d,)),
            Par(f"L{tag}", "real", .3, 3, shape=(d, r)), Par(f"C{tag}", "real", .3, 3, shape=(r, r)),
            Par(f"H0{tag}", "real", .3, 3, shape=(1, d)), Par(f"H1{tag}", "real", .3, 3, shape=(1, d)),
            Par(f"R{tag}", "real", .3, 3, shape=(d, d))]


NG = 7
