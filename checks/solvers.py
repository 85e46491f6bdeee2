"""Runs a real solver and its reference on the same inputs."""
import numpy as np

import refs

STATIC = ("gl", "lgl", "infimal")
TEMPORAL = ("tgl", "ltgl", "ktgl", "kltgl", "ltmd")
INFO = {
    "gl": ("regain.covariance.graphical_lasso_", "graphical_lasso"),
    "lgl": ("regain.covariance.latent_graphical_lasso_", "latent_graphical_lasso"),
    "infimal": ("regain.covariance.infimal_convolution_", "infimal_convolution"),
    "tgl": ("regain.covariance.time_graphical_lasso_", "time_graphical_lasso"),
    "ltgl": ("regain.covariance.latent_time_graphical_lasso_", "latent_time_graphical_lasso"),
    "ktgl": ("regain.covariance.kernel_time_graphical_lasso_", "kernel_time_graphical_lasso"),
    "kltgl": ("regain.covariance.kernel_latent_time_graphical_lasso_", "kernel_latent_time_graphical_lasso"),
    "ltmd": ("regain.covariance.latent_time_matrix_decomposition", "latent_time_matrix_decomposition"),
}


class Run(object):
    pass


def kernel_input(h, name, T):
    k = np.zeros((T, T))
    for i in range(T):
        k[i, i] = 1
        for j in range(i):
            k[i, j] = k[j, i] = h.nonneg("%s_%d_%d" % (name, j, i))
    return k


def run(h, solver, d=2, T=2, N=1, init="zeros", upd=False, psi="laplacian", phi="laplacian", relax=True, weights=True,
        per_time=False, objective=False, fixed=(), endless=False):
    """fixed: names of parameters that are given concrete values (to focus the exploration); endless: tolerances
    that no residual meets, so that every run uses all its iterations."""
    mod, fn = INFO[solver]
    f = getattr(h.mod(mod), fn)
    static = solver in STATIC
    o = Run()
    o.solver, o.penalties = solver, (psi, phi)

    def par(name, kind="nonneg", value=1):
        if name in fixed:
            return h.lit(value)
        return getattr(h, kind)(name)
    S = h.symmetric("S", d) if static else h.symmetrics("S", T, d)
    S0 = S.copy()
    rho, tol, rtol = par("rho", "pos"), par("tol", "pos"), par("rtol", "pos")
    if endless:
        tol, rtol = h.lit(-1), h.lit(0)
    alpha = par("alpha")
    kw = dict(alpha=alpha, rho=rho, max_iter=N, tol=tol, rtol=rtol, return_history=True, return_n_iter=True,
              compute_objective=objective)
    opts = None
    if upd == "fixed":
        opts = dict(mu=float("inf"))      # residuals never differ by that factor: the step is kept
        kw["update_rho_options"] = opts
    elif upd:
        opts = dict(mu=h.pos("mu"), tau_inc=h.pos("tau_inc"), tau_dec=h.pos("tau_dec"))
        kw["update_rho_options"] = opts
    given = None
    if solver not in ("infimal", "ltmd"):
        if init == "array":
            given = h.symmetric("Z0", d) if static else h.symmetrics("Z0", T, d)
            kw["init"] = given
        else:
            kw["init"] = init
        Z0 = refs.init(h, S0, init, given)
    else:
        Z0 = np.zeros(S.shape)
    n = [1] * T
    if solver in ("tgl", "ltgl", "ktgl", "kltgl") and weights:
        ns = h.array("n", (T,), pos=True)
        kw["n_samples"] = ns
        n = [ns[t] for t in range(T)]
    if per_time:
        kw["alpha"] = alpha = h.array("alphas", (T, 1, 1), nonneg=True)
    inputs = [S]
    if solver == "gl":
        over = h.real("over_relax") if relax else 1
        kw["over_relax"] = over
        obj = (lambda K, Z: refs.nll(S0, K) + alpha * refs.l1_od(Z)) if objective else None
        ref = lambda: refs.graphical_lasso(h, S0, alpha, rho, over, N, tol, rtol, Z0, opts, obj)
    elif solver in ("lgl", "infimal"):
        kw["tau"] = tau = par("tau")
        ref = lambda: refs.latent(h, S0, alpha, tau, rho, N, tol, rtol, Z0, opts, objective, solver == "lgl")
    elif solver == "tgl":
        beta = h.array("betas", (T - 1, 1, 1), nonneg=True) if per_time else par("beta")
        kw.update(beta=beta, psi=psi)
        ref = lambda: refs.temporal(h, S0, n, alpha, refs.chain(T, beta), psi, rho, N, tol, rtol, Z0, opts, objective)
    elif solver == "ktgl":
        k = kernel_input(h, "k", T)
        kw.update(kernel=k, psi=psi)
        inputs.append(k)
        ref = lambda: refs.temporal(h, S0, n, alpha, refs.all_pairs(k), psi, rho, N, tol, rtol, Z0, opts, objective)
    elif solver in ("ltgl", "ltmd"):
        kw.update(tau=par("tau"), beta=par("beta"), eta=par("eta"), psi=psi, phi=phi)
        ref = lambda: refs.latent_temporal(h, S0, n, alpha, kw["tau"], refs.chain(T, kw["beta"]),
                                           refs.chain(T, kw["eta"]), psi, phi, rho, N, tol, rtol, Z0, opts, objective,
                                           solver == "ltgl")
    elif solver == "kltgl":
        k1, k2 = kernel_input(h, "kpsi", T), kernel_input(h, "kphi", T)
        kw.update(tau=par("tau"), kernel_psi=k1, kernel_phi=k2, psi=psi, phi=phi)
        inputs += [k1, k2]
        ref = lambda: refs.latent_temporal(h, S0, n, alpha, kw["tau"], refs.all_pairs(k1), refs.all_pairs(k2), psi, phi,
                                           rho, N, tol, rtol, Z0, opts, objective)
    before = [x.copy() for x in inputs]
    h.reset_warnings()
    res = f(S, **kw)
    o.warnings = [w for w in h.warned() if "converge" in w.lower()]
    o.n_iter, o.hist = res[-1], res[-2]
    mats = list(res[:-2])
    if solver != "ltmd":
        o.cov = mats.pop()
    o.mats = mats
    r = ref()
    st = r.state
    if solver == "gl":
        o.ref = [st.Z]
    elif solver in ("lgl", "infimal"):
        o.ref = [st.K, st.L]
    elif solver in ("tgl", "ktgl"):
        o.ref = [refs.stack(st.Z)]
    else:
        o.ref = [refs.stack(st.Z), refs.stack(st.W)]
    o.r = r
    o.inputs, o.before = inputs, before
    o.S0 = S0
    o.first = getattr(st, "obj0", None)
    o.lead = 1 if solver in ("tgl", "ktgl") else 0
    return o


def check_mats(h, o):
    h.check(len(o.mats) == len(o.ref), "number of returned matrices")
    for k, (a, b) in enumerate(zip(o.mats, o.ref)):
        h.equal(a, b, "%s after the last iteration" % ("sparse part" if k == 0 else "latent part"))
        if "l2" not in o.penalties or o.solver in ("tgl", "ktgl"):
            # column norms are not symmetric: there the latent solvers' parts are symmetric in the limit only
            h.equal(a, refs.T_(a), "symmetric")


def check_cov(h, o):
    """The returned covariance is the pseudo-inverse of the returned (sparse) precision (static graphical lasso: the
    empirical covariance, as documented)."""
    if o.solver == "gl":
        h.equal(o.cov, o.S0, "covariance")
        return
    from scipy import linalg
    z = o.ref[0]
    mats = z if z.ndim == 3 else z[None]
    c = np.array([linalg.pinvh(m) for m in mats])
    h.equal(o.cov, c if z.ndim == 3 else c[0], "covariance")


def check_inputs(h, o):
    for a, b in zip(o.inputs, o.before):
        h.equal(a, b, "input unchanged")


def check_report(h, o, N):
    h.equal(o.n_iter, o.r.n_iter, "number of iterations")
    h.check(len(o.hist) == o.r.n_iter + o.lead, "one record per iteration")
    h.check((len(o.warnings) > 0) == (not o.r.converged), "warning iff not converged")


def check_history(h, o):
    for k, (a, b) in enumerate(zip(o.hist[o.lead:], o.r.hist)):
        h.equal(a.rnorm, b.rnorm, "primal residual %d" % k)
        h.equal(a.snorm, b.snorm, "dual residual %d" % k)
        h.equal(a.e_pri, b.e_pri, "primal tolerance %d" % k)
        h.equal(a.e_dual, b.e_dual, "dual tolerance %d" % k)


def check_objective(h, o):
    if o.lead and o.first is not None:
        h.equal(o.hist[0].obj, o.first, "starting objective")
    for k, (a, b) in enumerate(zip(o.hist[o.lead:], o.r.hist)):
        h.equal(a.obj, b.obj, "objective %d" % k)


def updates(h, solver, **k):
    """Returned matrices = the matrices the exact updates of the documented problem give."""
    o = run(h, solver, **k)
    check_mats(h, o)
    if solver != "ltmd":
        check_cov(h, o)
    check_inputs(h, o)


def full(h, solver, **k):
    """The above, and everything the solver reports about the run."""
    o = run(h, solver, **k)
    check_mats(h, o)
    check_report(h, o, k.get("N", 1))
    check_history(h, o)
    if k.get("objective"):
        check_objective(h, o)
