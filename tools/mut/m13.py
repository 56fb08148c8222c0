from mut import suite
r, done = suite("C13")
for f, o, n in [
    ("utils.py", "tmp1 <= dmax)", "tmp1 < 2 * dmax)"),
    ("utils.py", "logical_and(tmp1 > 0, np.logical_and(tmp2 >= 0, tmp2 <= 1))", "logical_and(tmp1 > 0, tmp2 <= 1)"),
    ("utils.py", "np.logical_and(alpha > tmp1, ind)", "ind"),
    ("utils.py", "            border[ind] = label[i]\n", "            border[ind] = label[0]\n"),
    ("utils.py", "if v[0] * vti[1] < v[1] * vti[0]:", "if v[0] * vti[1] > v[1] * vti[0]:"),
    ("utils.py", "normal_y[ind] = -sign * vti[0] / nv", "normal_y[ind] = -sign * vti[0]"),
    ("utils.py", "nv = np.sqrt(vti[0] ** 2 + vti[1] ** 2)", "nv = np.sqrt(vti[0] ** 2 - vti[1] ** 2)"),
    ("utils.py", "    alpha[alpha == tgv] = -1.0\n    if normal:", "    if normal:"),
    ("utils.py", "vxy = 2 * (v1[0] * v1[1] + v2[0] * v2[1])", "vxy = (v1[0] * v1[1] + v2[0] * v2[1])"),
    ("utils.py", "    d1[d1 < 0] = tgv\n", "    d1[d1 < 0] = 0\n"),
    ("utils.py", "d[ind] = np.minimum(d1[ind], d2[ind])\n    d[d == tgv]", "d[ind] = d1[ind]\n    d[d == tgv]"),
    ("utils.py", "normal_y[ind] = 2 * Ye[ind] * vx2 - Xe[ind] * vxy", "normal_y[ind] = 2 * Ye[ind] * vx2 - Ye[ind] * vxy"),
    ("utils.py", "    normal_x[sense] *= -1\n        normal_y[sense] *= -1\n        # normalization\n        norm_normal[ind] = np.sqrt(normal_x[ind] ** 2 + normal_y[ind] ** 2)\n", "    normal_x[sense] *= -1\n        # normalization\n        norm_normal[ind] = np.sqrt(normal_x[ind] ** 2 + normal_y[ind] ** 2)\n"),
    ("utils.py", "        - d\n    )\n    delta", "        - 1\n    )\n    delta"),
    ("utils.py", "+ cyz * v[1] * v[2]", "+ cyz * v[1] * v[1]"),
    ("utils.py", "(2 * cyy * v[1] + cyz * v[2] + cxy * v[0]) * Y", "(2 * cyy * v[1] + cyz * v[2] + cxy * v[1]) * Y"),
    ("utils.py", "czx = 2 * (v12[2] * v12[0]", "czx = 2 * (v12[2] * v12[1]"),
    ("utils.py", "normal_z[ind] = 2 * czz * Ze[ind] + czx * Xe[ind]", "normal_z[ind] = 2 * czz * Ze[ind] - czx * Xe[ind]"),
    ("utils.py", "        normal_z /= norm_normal\n", ""),
    ("utils.py", "        normal_z[sense] *= -1\n", ""),
    ("utils.py", "X = x - center[0]\n    Y = y - center[1]\n    # equation", "X = x\n    x -= center[0]\n    Y = y - center[1]\n    # equation"),
    ("circle.py", "<= self.radius**2", "< self.radius**2"),
    ("circle.py", "v2 = self.radius * np.array([0, 1])", "v2 = np.array([0, 1])"),
    ("circle.py", "return self.center - self.radius, self.center + self.radius", "return self.center, self.center + self.radius"),
    ("sphere.py", "+ v2[2] ** 2)", "+ v2[1] ** 2)"),
    ("sphere.py", "v3 = self.radius * np.array([0, 0, 1])\n        return", "v3 = np.array([0, 0, 1])\n        return"),
    ("ellipse.py", "<= tv**2", "<= tv"),
    ("ellipse.py", "X**2 * vy2 + Y**2 * vx2", "X**2 * vx2 + Y**2 * vy2"),
    ("ellipse.py", "r = max(np.linalg", "r = min(np.linalg"),
    ("ellipsoid.py", "+ cyz * Y * Z", "+ cyz * Y * X"),
    ("ellipsoid.py", "            <= d\n", "            < d\n"),
    ("ellipsoid.py", "x, y, z, v, self.center, self.v1, self.v2, self.v3,", "x, y, z, v, self.center, self.v1, self.v2, self.v2,"),
    ("triangle.py", "u + v <= 1", "u + v < 1"),
    ("triangle.py", "p = [[0, 0], [0, 0], self.v1]", "p = [[0, 0], [0, 0], self.v2]"),
    ("triangle.py", "vt = [self.v1, self.v2, self.v2 - self.v1]", "vt = [self.v2, self.v1, self.v2 - self.v1]"),
    ("triangle.py", "                self.point + self.v2,\n", ""),
    ("parallelogram.py", "np.logical_and(u <= 1, v <= 1)", "u <= 1"),
    ("parallelogram.py", "p = [[0, 0], [0, 0], self.v2, self.v1]", "p = [[0, 0], [0, 0], self.v1, self.v2]"),
    ("parallelogram.py", "                self.point + self.v1 + self.v2,\n", ""),
    ("parallelogram.py", "y - self.point[1], v, p,", "y - self.point[0], v, p,"),
    ("cylinder.py", "np.abs(z_cyl) <= 1.0", "z_cyl <= 1.0"),
    ("cylinder.py", "np.abs(z_cyl) <= 1.0", "np.abs(z_cyl) < 1.0"),
    ("cylinder.py", "v_cyl[:-1], dmax, self.label[:-2]", "v_cyl[:-1], dmax, self.label[1:]"),
    ("cylinder.py", "np.abs(z_cyl + alpha * v_cyl[2]) > 1.0", "np.abs(z_cyl) > 1.0"),
    ("cylinder.py", "            decal = 1.0e-16\n", "            decal = 1.0\n"),
    ("cylinder.py", "alpha_bot > dlim", "alpha_bot > 2"),
    ("cylinder.py", "        alpha_bot[ind] = 1.0e16\n", ""),
    ("cylinder.py", "border[ind] = self.label[-1]", "border[ind] = self.label[-2]"),
    ("cylinder.py", "y_cyl + alpha_bot * v_cyl[1]", "y_cyl + alpha_top * v_cyl[1]"),
    ("cylinder.py", "        normal_cyl_y[ind] = 0.0\n        normal_cyl_z[ind] = -1.0", "        normal_cyl_z[ind] = -1.0"),
    ("cylinder.py", "self.center = self.point + self.w\n", "self.center = self.point + np.asarray(v2)\n"),
    ("cylinder.py", "self.iA[2, 0] * xx + self.iA[2, 1] * yy + self.iA[2, 2] * zz\n        return", "self.iA[0, 2] * xx + self.iA[1, 2] * yy + self.iA[2, 2] * zz\n        return"),
    ("base.py", "self.label = [label] * self.number_of_bounds", "self.label = [label]"),
    ("base.py", "return (x**2 + y**2) <= 1.0", "return (x**2 + y**2) < 1.0"),
    ("base.py", "p = [[0, 0], [0, 0], [1, 0], [0, 1]]", "p = [[0, 0], [0, 0], [0, 1], [1, 0]]"),
    ("base.py", "vt = [[1, 0], [0, 1], [-1, 1]]", "vt = [[1, 0], [0, 1], [1, -1]]"),
]:
    r("B", ("elements/" + f, o, n))
for f, o, n in [
    ("utils.py", "    delta = b**2 - 4 * a * c\n    ind = delta >= 0\n    delta[ind] = np.sqrt(delta[ind])\n", "    delta = b * b - 4 * a * c\n    ind = delta >= 0\n    delta = np.where(ind, np.sqrt(np.abs(delta)), delta)\n"),
    ("utils.py", "    for i, vti in enumerate(vt):\n        tmp1, tmp2 = intersection_two_lines(v2, v, p[i], vti)\n", "    for i in range(len(vt)):\n        vti = vt[i]\n        tmp1, tmp2 = intersection_two_lines(v2, v, p[i], vti)\n"),
    ("utils.py", "    if dmax is None:\n        ind = d > 0\n    else:\n        ind = np.logical_and(d > 0, d <= dmax)\n    alpha[ind] = d[ind]\n    border[ind] = label[0]\n    if normal:", "    ind = d > 0\n    if dmax is not None:\n        ind &= d <= dmax\n    alpha[ind] = d[ind]\n    border[ind] = label[0]\n    if normal:"),
    ("circle.py", "v2 = [x - self.center[0], y - self.center[1]]\n        return (v2[0] ** 2 + v2[1] ** 2) <= self.radius**2", "xc, yc = self.center\n        return np.logical_not((x - xc) ** 2 + (y - yc) ** 2 > self.radius * self.radius)"),
    ("circle.py", "v1 = self.radius * np.array([1, 0])\n        v2 = self.radius * np.array([0, 1])\n", "v1, v2 = self.radius * np.eye(2)\n"),
    ("parallelogram.py", "return np.logical_and(\n            np.logical_and(u >= 0, v >= 0), np.logical_and(u <= 1, v <= 1)\n        )", "return (u >= 0) & (v >= 0) & (u <= 1) & (v <= 1)"),
    ("ellipse.py", "r = max(np.linalg.norm(self.v1), np.linalg.norm(self.v2))", "r = np.sqrt(max(np.sum(self.v1**2), np.sum(self.v2**2)))"),
    ("cylinder.py", "lw = [abs(self.w[k]) for k in range(len(self.w))]", "lw = np.abs(self.w)"),
    ("cylinder.py", "alpha = np.amin([alpha, alpha_top, alpha_bot], axis=0)", "alpha = np.minimum(alpha, np.minimum(alpha_top, alpha_bot))"),
    ("cylinder.py", "self.A = np.empty((3, 3))\n        self.A[:, 0] = self.v1\n        self.A[:, 1] = self.v2\n        self.A[:, 2] = self.w\n", "self.A = np.column_stack((self.v1, self.v2, self.w))\n"),
    ("triangle.py", "return np.logical_and(np.logical_and(u >= 0, v >= 0), u + v <= 1)", "inside = u >= 0\n        inside = np.logical_and(inside, v >= 0)\n        inside[u + v > 1] = False\n        return inside"),
]:
    r("R", ("elements/" + f, o, n))
done()
