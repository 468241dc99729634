"""Redshift bins, biases and probes of the checks, and their specifications"""
import jax

import jax_cosmo.redshift as rds
from jax_cosmo.jax_utils import container

from .common import *

SR = (180.0 * 60.0 / np.pi) ** 2
ARC = 11818102.86004228


def simpson(f, b, N=256, a=0.0):
    """Simpson's rule on [a, b], vectorised"""
    x = np.linspace(a, b, N + 1)
    w = np.ones(N + 1)
    w[1:-1:2] = 4.0
    w[2:-1:2] = 2.0
    return jnp.sum(w * f(jnp.asarray(x))) * ((b - a) / N) / 3.0


PZ = prims.uf("pz", lambda z, p: (0.2 + z * z) * jnp.exp(-z * p) * (1.0 + 0.3 * jnp.sin(71.0 * z)), 1e-6, 10.0)
BIAS = prims.uf("bias", lambda z, p, s: 1.0 + 0.3 * jnp.sin(2.0 * z + p) + 0.1 * s + 0.2 * jnp.sin(67.0 * z), 0.1, 10.0)


@jax.tree_util.register_pytree_node_class
class any_nz(rds.redshift_distribution):
    """An arbitrary distribution of one parameter"""

    def pz_fn(self, z):
        return PZ(z, self.params[0])


@jax.tree_util.register_pytree_node_class
class any_bias(container):
    """An arbitrary function of redshift, of its parameter and of the cosmology"""

    def __call__(self, cosmo, z):
        return BIAS(z, self.params[0], cosmo.sigma8)


def smail(a, b, z0):
    def f(z):
        z = jnp.asarray(z)
        pos = jnp.where(z > 0, z, 1.0)
        return jnp.where(z > 0, jnp.exp(a * jnp.log(pos) - jnp.exp(b * (jnp.log(pos) - jnp.log(z0)))), 0.0)

    return f


def normalised(f, zmax):
    return lambda z: f(z) / simpson(f, zmax)


class Bin:
    """An object of the code and what it stands for"""

    def __init__(self, obj, nz, zmax, gals, delta=None):
        self.obj, self.nz, self.zmax, self.gals, self.delta = obj, nz, zmax, gals, delta


def ext(p, zmax=3.0, gals=1.0):
    return Bin(any_nz(p, zmax=zmax, gals_per_arcmin2=gals), normalised(lambda z: PZ(z, p), zmax), zmax, gals)


def sml(a, b, z0, zmax=3.0, gals=1.0):
    return Bin(rds.smail_nz(a, b, z0, zmax=zmax, gals_per_arcmin2=gals), normalised(smail(a, b, z0), zmax), zmax, gals)


def dlt(z0, zmax=10.0, gals=1.0):
    return Bin(rds.delta_nz(z0, zmax=zmax, gals_per_arcmin2=gals), None, zmax, gals, z0)


# ------------------------------------------------------------------ kernels
def ellf(l):
    return jnp.sqrt((l - 1.0) * l * (l + 1.0) * (l + 2.0)) / (l + 0.5) ** 2


def lensing_kernel(p, bins, z, ell, m=None, ia=None):
    """Rows of the lensing kernel; m: list of multiplicative biases, ia: list of functions of z"""
    z = jnp.atleast_1d(z)
    zmax = max(b.zmax for b in bins)
    cz = chi(p, 1.0 / (1.0 + z))
    N = 256
    t = np.arange(N + 1) / N
    w = np.ones(N + 1)
    w[1:-1:2] = 4.0
    w[2:-1:2] = 2.0
    zs = z[None, :] + t[:, None] * (zmax - z[None, :])
    cs = None
    out = []
    for i, b in enumerate(bins):
        if b.delta is None:
            if cs is None:
                cs = chi(p, (1.0 / (1.0 + zs)).ravel()).reshape(zs.shape)
            g = b.nz(zs.ravel()).reshape(zs.shape) * jnp.maximum(cs - cz, 0.0) / jnp.maximum(cs, 1.0)
            g = jnp.sum(w[:, None] * g, axis=0) * (zmax - z) / N / 3.0
        else:
            c = chi(p, 1.0 / (1.0 + jnp.asarray(b.delta)))
            g = jnp.maximum(c - cz, 0.0) / jnp.maximum(c, 1.0)
        r = 1.5 * 100.0**2 * om(p) / CLIGHT * ellf(ell) * (1.0 + z) * cz * g
        if ia is not None:
            r = r + nla(p, b, ia[i], z, ell)
        if m is not None:
            r = r * (1.0 + m[i])
        out.append(r)
    return jnp.stack(out)


def nla(p, b, bias, z, ell):
    a = 1.0 / (1.0 + z)
    C1rho = 5e-14 * 2.7750e11
    return -C1rho * om(p) / growth(p, a, p.get("gamma")) * b.nz(z) * bias(z) * H(p, a) * ellf(ell)


def density_rows(p, bins, biases, z):
    z = jnp.atleast_1d(z)
    return jnp.stack([b.nz(z) * f(z) * H(p, 1.0 / (1.0 + z)) for b, f in zip(bins, biases)])


def ubias(q, s):
    return lambda z: BIAS(z, q, s)
