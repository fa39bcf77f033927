"""Builds the solver's objects (compiled) without the matrix files."""
import os, sys, io, contextlib
sys.path.insert(0, os.getcwd())
import numpy as np
import numba as nb
from moving_mesh_transport.solver_classes.functions import quadrature
from moving_mesh_transport.solver_classes.build_problem import build
from moving_mesh_transport.solver_classes.matrices import G_L
from moving_mesh_transport.solver_classes.numerical_flux import LU_surf
from moving_mesh_transport.solver_classes.sources import source_class
from moving_mesh_transport.solver_classes.uncollided_solutions import uncollided_solution
from moving_mesh_transport.solver_classes.phi_class import scalar_flux
from moving_mesh_transport.solver_classes.mesh import mesh_class
from moving_mesh_transport.solver_classes.rhs_class_1 import rhs_class
from moving_mesh_transport.solver_classes.radiative_transfer import T_function
from moving_mesh_transport.solver_classes.opacity import sigma_integrator

if "plain" in sys.modules:
    import plain
    from moving_mesh_transport.solver_classes import mutables
    plain.patch(mutables)


def tdict(**kw):
    d = nb.typed.Dict.empty(key_type=nb.typeof('par_1'), value_type=nb.typeof(1))
    for k, v in kw.items():
        d[k] = int(v)
    return d


def params(**kw):
    p = dict(N_ang=4, N_space=4, M=2, tfinal=1.0, x0=0.5, t0=1.0, sigma_t=1.0, sigma_s=1.0, source_type=(0, 0, 0, 0, 0, 0), uncollided=0,
             moving=1, move_type=(1, 0, 0, 0), t_nodes=20, temp_function=(0, 1), e_initial=0.0, sigma=0.5, particle_v=1.0, edge_v=1.0,
             cv0=1.0, thick=0, wave_loc_array=np.zeros((1, 4, 3)), source_strength=1.0, move_factor=1.0, l=1.0, save_wave_loc=0, pad=0.1,
             leader_pad=0.1, boundary_on=(0, 0), boundary_source_strength=0.0, boundary_source=0, opacity='constant', Msigma=0,
             finite_domain=0, domain_width=10.0, fake_sedov_v0=0.0, test_dimensional_rhs=0, epsilon=1.0, geometry='slab',
             weights='gauss_lobatto')
    p.update(kw)
    return p


class Problem:
    def __init__(self, quiet=True, **kw):
        with contextlib.redirect_stdout(io.StringIO()):
            self._make(params(**kw))

    def _make(self, p):
        self.p = p
        g = p['geometry']
        self.geometry = tdict(slab=g == 'slab', sphere=g == 'sphere')
        ops = ('constant', 'gaussian', 'siewert1', 'siewert2', 'siewert', 'fake_sedov')
        self.sigma_func = tdict(**{k: k == p['opacity'] for k in ops})
        self.couple = tdict(none=1, rad_transfer=0)
        N, M = p['N_space'], p['M']
        mus, ws = quadrature(p['N_ang'], p['weights'])
        xq, wq = quadrature(2 * M + 1, 'gauss_legendre') if g == 'slab' else quadrature(6 * M + 1, 'chebyshev')
        tq, tw = quadrature(p['t_nodes'], 'gauss_legendre')
        qs = quadrature(int(N / 2 + 1), 'gauss_lobatto')[0]
        qe = quadrature(int(N / 4 + 1), 'gauss_lobatto')[0]
        self.mus, self.ws = mus, ws
        A = lambda k: np.array(p[k], dtype=np.int64)
        self.build = build(p['N_ang'], N, M, p['tfinal'], p['x0'], p['t0'], mus, ws, xq, wq, p['sigma_t'], p['sigma_s'], A('source_type'),
                           p['uncollided'], p['moving'], A('move_type'), tq, tw, self.couple, A('temp_function'), p['e_initial'], p['sigma'],
                           p['particle_v'], p['edge_v'], p['cv0'], p['thick'], p['wave_loc_array'], p['source_strength'], p['move_factor'],
                           p['l'], p['save_wave_loc'], p['pad'], p['leader_pad'], qs, qe, A('boundary_on'), p['boundary_source_strength'],
                           p['boundary_source'], self.sigma_func, p['Msigma'], p['finite_domain'], p['domain_width'], p['fake_sedov_v0'],
                           p['test_dimensional_rhs'], p['epsilon'], self.geometry)
        self.build.make_IC()
        self.IC = self.build.IC
        self.mesh = mesh_class(N, p['x0'], p['tfinal'], p['moving'], A('move_type'), A('source_type'), p['edge_v'], p['thick'],
                               p['move_factor'], p['wave_loc_array'], p['pad'], p['leader_pad'], qs, qe, p['finite_domain'],
                               p['domain_width'], p['fake_sedov_v0'], A('boundary_on'), p['t0'], self.geometry)
        K = M + 1
        i2, i3 = np.ones((K, K), dtype=np.int64), np.ones((1, K, K), dtype=np.int64)
        f = lambda *s: np.zeros(s)
        self.matrices = G_L(self.build, i2, i2, i2, i2, i3, f(K, K, 3), f(K, K, 2), f(K, K, 2), f(K, K, 6), f(K, K, 2), f(K, K, 3),
                            f(1, K, K, 3), f(1, K, K, 2))
        self.flux_surf = LU_surf(self.build)
        self.source = source_class(self.build)
        self.uncol = uncollided_solution(self.build)
        self.flux = scalar_flux(self.build)
        self.rhs = rhs_class(self.build)
        self.transfer = T_function(self.build)
        self.sigma = sigma_integrator(self.build)
        self.flux.load_AAA(self.sigma.AAA)

    def RHS(self, t, V):
        with contextlib.redirect_stdout(io.StringIO()):
            return self.rhs.call(t, V, self.mesh, self.matrices, self.flux_surf, self.source, self.uncol, self.flux, self.transfer, self.sigma)
