from mut import suite
r, done = suite("C21")
S, Q = "analysis/stability.py", "analysis/equivalent_equation.py"
for f, o, n in [
    (S, "sp.eye(self.nvtot) - sp.diag(*scheme.s)", "sp.eye(self.nvtot) + sp.diag(*scheme.s)"),
    (S, "+= sp.diag(*scheme.s) * jacobian", "-= sp.diag(*scheme.s) * jacobian"),
    (S, "+= sp.diag(*scheme.s) * jacobian", "+= jacobian"),
    (S, "jacobian = (scheme.Tu * scheme.EQ).jacobian(self.consm)", "jacobian = scheme.EQ.jacobian(self.consm)"),
    (S, "relax_mat_m = relax_mat_m * scheme.Tu", "pass"),
    (S, "relax_mat_m = scheme.Tmu * relax_mat_m\n", "pass\n"),
    (S, "zip([rel_ux, rel_uy, rel_uz], scheme.rel_vel)", "zip([rel_uy, rel_ux, rel_uz], scheme.rel_vel)"),
    (S, "scheme.invM * relax_mat_m * scheme.M", "scheme.M * relax_mat_m * scheme.invM"),
    (S, "scheme.stencil.get_all_velocities()", "-scheme.stencil.get_all_velocities()"),
    (S, "to_subs += list(self.param.items())", "pass"),
    (S, "to_subs += list(extra_parameters.items())", "pass"),
    (S, "endpoint=False)\n            v_xi = v_xi[", "endpoint=True)\n            v_xi = v_xi["),
    (S, "n_wv_0, endpoint=False", "n_wv, endpoint=False"),
    (S, "np.linspace(0, 2 * np.pi, n_wv_0", "np.linspace(0, np.pi, n_wv_0"),
    (S, "v_xi = np.array([v_xi_x.flatten(), v_xi_y.flatten()])", "v_xi = np.array([v_xi_x.flatten(), v_xi_x.flatten()])"),
    (S, "n_wv = v_xi.shape[1]", "pass"),
    (S, "data = set_matrix(1j * v_xi[:, k])", "data = set_matrix(v_xi[:, k])"),
    (S, "data = set_matrix(1j * v_xi[:, k])", "data = set_matrix(1j * v_xi[:, 0])"),
    (S, "eigs[k] = np.linalg.eig(data)[0]", "eigs[k] = np.linalg.eig(data)[1][0]"),
    (S, "algo_cohn_schur(data)\n", "algo_cohn_schur(relax_mat_f_num)\n"),
    (S, "if all(test_cohn_schur[:, 0]):", "if all(test_cohn_schur[:, 1]):"),
    (S, "if all(test_cohn_schur[:, 0]):", "if any(test_cohn_schur[:, 0]):"),
    (S, "if not all(test_cohn_schur[:, 1]):", "if not any(test_cohn_schur[:, 1]):"),
    (S, "var_in, var_on, var_out = 0, 1, 2", "var_in, var_on, var_out = 0, 2, 1"),
    (S, "np.conjugate(p[d - k])", "p[d - k]"),
    (S, "range(d + 1)]\n\n\ndef operator_circ", "range(d)]\n\n\ndef operator_circ"),
    (S, "pstar[0] * p[k] - p[0] * pstar[k]", "pstar[0] * p[k] + p[0] * pstar[k]"),
    (S, "pstar[0] * p[k] - p[0] * pstar[k]", "p[0] * p[k] - pstar[0] * pstar[k]"),
    (S, "[k * p[k] for k in range(1, d + 1)]", "[p[k] for k in range(1, d + 1)]"),
    (S, "[k * p[k] for k in range(1, d + 1)]", "[(d - k) * p[k] for k in range(0, d)]"),
    (S, "return abs(p[0]) < abs(p[1])\n", "return abs(p[0]) <= abs(p[1])\n"),
    (S, "return is_S(pder)", "return is_svN(pder)"),
    (S, "return is_vN(pder)", "return is_S(pder)"),
    (S, "return is_vN(pcirc)", "return is_vN(p[1:])"),
    (S, "return is_svN(pcirc)", "return is_vN(pcirc)"),
    (S, "    p = normalize(p)\n    if len(p) == 2:\n        return abs(p[0]) <=", "    if len(p) == 2:\n        return abs(p[0]) <="),
    (S, "return [pk / pmax for pk in p]", "return [pk * pmax for pk in p]"),
    (S, "charpoly = [1., -1. * np.trace(G)]", "charpoly = [1., np.trace(G)]"),
    (S, "-np.trace(Gk) / (k + 1)", "-np.trace(Gk) / k"),
    (S, "G @ (Gk + charpoly[k] * Id)", "G * (Gk + charpoly[k] * Id)"),
    (S, "    charpoly.reverse()", "    pass"),
    (S, "return is_svN(charpoly), is_vN(charpoly)", "return is_vN(charpoly), is_svN(charpoly)"),
    (S, "return is_svN(charpoly), is_vN(charpoly)", "return is_S(charpoly), is_vN(charpoly)"),
    (Q, "sp.Matrix(scheme.EQ[nconsm:]).subs(sublist)", "sp.Matrix(scheme.EQ[:-nconsm]).subs(sublist)"),
    (Q, "vd = LA * sp.diag", "vd = sp.diag"),
    (Q, "scheme.M * vd * scheme.invM", "scheme.invM * vd * scheme.M"),
    (Q, "sp.eye(len(s)) / 2", "sp.eye(len(s))"),
    (Q, "inv_s = [1 / v for v in s]", "inv_s = [v for v in s]"),
    (Q, "sigma = Tmu * sigma * Tu", "sigma = Tu * sigma * Tmu"),
    (Q, "A * func + B * eq_func", "A * func - B * eq_func"),
    (Q, "-C * func - D * eq_func", "-C * func + D * eq_func"),
    (Q, "phi1[i] += sp.Derivative(dummy[i], space[dim])", "phi1[i] += sp.Derivative(dummy[i], space[0])"),
    (Q, "gamma_1[i] += sp", "gamma_1[i] = sp"),
    (Q, "phi1_ = phi1 + delta1", "phi1_ = phi1 - delta1"),
    (Q, "sphi1 = B * sigma * phi1_", "sphi1 = B * phi1_"),
    (Q, "self.coeff_order2[dim][i][ic, jc] +=", "self.coeff_order2[i][dim][ic, jc] +="),
    (Q, "self.coeff_order2[dim][i][ic, jc] +=", "self.coeff_order2[dim][i][jc, ic] +="),
    (Q, "sp.Derivative(func[jc], space[i])", "sp.Derivative(func[jc], space[dim])"),
    (Q, "cc.subs(sublist_inv).doit()", "cc"),
]:
    r("B", (f, o, n))
r("R", (S, "    if len(p) == 2:\n        return abs(p[0]) < abs(p[1])\n    if abs(p[0]) < abs(p[-1]):\n        pcirc = operator_circ(p)\n        return is_S(pcirc)\n    return False",
    "    while len(p) > 2:\n        if abs(p[0]) >= abs(p[-1]):\n            return False\n        p = normalize(operator_circ(p))\n    return abs(p[1]) > abs(p[0])"))
r("R", (S, "    return [pstar[0] * p[k] - p[0] * pstar[k] for k in range(1, d + 1)]",
    "    out = []\n    for k in range(d):\n        out.append(np.conj(p[-1]) * p[k + 1] - p[0] * pstar[k + 1])\n    return out"))
r("R", (S, "all([abs(pcirck) < TPV for pcirck in pcirc])", "max(abs(c) for c in pcirc) < TPV"))
r("R", (S, "all([abs(pcirck) < TPV for pcirck in pcirc])", "not any(abs(c) >= TPV for c in pcirc)"))
r("R", (S, "    p = normalize(p)\n    if len(p) == 2:\n        return abs(p[0]) <=", "    p = normalize(p)\n    if not len(p) > 2:\n        return abs(p[0]) <="))
r("R", (S, "return is_vN(pcirc)", "return is_vN([2 * c for c in pcirc])"))
r("R", (S, "            return (\n                np.exp(self.velocities.dot(wave_vector))[np.newaxis, :]\n                * relax_mat_f_num\n            )",
    "            phase = np.exp(self.velocities.dot(wave_vector))\n            return np.diag(phase) @ relax_mat_f_num"))
r("R", (S, "eigs[k] = np.linalg.eig(data)[0]", "eigs[k, :] = np.linalg.eigvals(data)"))
r("R", (S, "        self.is_stable_l2 = var_on\n        if all(test_cohn_schur[:, 0]):\n            self.is_stable_l2 = var_in\n        if not all(test_cohn_schur[:, 1]):\n            self.is_stable_l2 = var_out\n",
    "        if not np.all(test_cohn_schur[:, 1]):\n            self.is_stable_l2 = var_out\n        elif np.all(test_cohn_schur[:, 0]):\n            self.is_stable_l2 = var_in\n        else:\n            self.is_stable_l2 = var_on\n"))
r("R", (S, "    charpoly.reverse()             # ascending order\n", "    charpoly = charpoly[::-1]\n"))
r("R", (S, "n_wv_0 = int(np.sqrt(n_wv))", "n_wv_0 = int(n_wv ** 0.5)"))
r("R", (Q, "        sigma = sp.diag(*inv_s) - sp.eye(len(s)) / 2\n", "        sigma = sp.diag(*[1 / v - sp.Rational(1, 2) for v in s])\n"))
r("R", (Q, "            dummy = -C * func - D * eq_func\n", "            dummy = -(C * func + D * eq_func)\n"))
r("R", (Q, "            for i in range(nconsm):\n                gamma_1[i] += sp.Derivative(self.coeff_order1[-1][i], space[dim])\n", "            flux = self.coeff_order1[-1]\n            for i, fi in enumerate(flux):\n                gamma_1[i] += sp.Derivative(fi, space[dim])\n"))
r("R", (Q, "jac = jac.subs(sublist)", "pass"))
done()
