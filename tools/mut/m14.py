from mut import suite
r, done = suite("C14")
for o, n in [
    ("        self.in_or_out[:] = self.valout\n", ""),
    ("if label[2 * k] == -2 else h for", "if label[2 * k] == -1 else h for"),
    ("n if label[2 * k + 1] == -2", "n if label[2 * k] == -2"),
    ("self.__out[tuple(box)] = False", "self.__out[tuple(box)] = True"),
    ("        self.__add_box(self.box_label)\n\n        self.clean()", "        self.clean()"),
    ("        self.clean()\n        log", "        log"),
    ("np.isin(flags, [self.valin, -1])", "np.isin(flags, [self.valin])") ,
    ("mask = np.logical_or(mask, flags == -1)", "pass  # or"),
    ("mask = np.logical_and(mask, np.isin(flags, [self.valin, -1]))", "pass"),
    ("dvik = -(i + 0.5) / vk", "dvik = -(i + 1) / vk"),
    ("dvik = (i + 0.5) / vk", "dvik = i + 0.5 / vk"),
    ("if vk < 0 and label[2 * iuvel] != -2", "if vk < 0 and label[2 * iuvel] != -1"),
    ("elif vk > 0 and label[2 * iuvel + 1] != -2", "elif vk > 0 and label[2 * iuvel] != -2"),
    ("indices[iuvel + 1] = -i - 1", "indices[iuvel + 1] = -vk"),
    ("flag_view[tuple(nind)] = label[2 * iuvel]\n", "flag_view[tuple(nind)] = label[iuvel]\n"),
    ("flag_view[tuple(nind)] = label[2 * iuvel + 1]\n", "flag_view[tuple(nind)] = label[2 * iuvel]\n"),
    ("norm_view[tuple(nind)] = 0\n                            norm_view[tuple(nind + [iuvel])] = -1", "norm_view[tuple(nind + [iuvel])] = -1"),
    ("norm_view[tuple(nind + [iuvel])] = 1", "norm_view[tuple(nind + [iuvel])] = vk"),
    ("tmp = np.array((elem_bl - phys_bl) / self.dx, int) - vmax", "tmp = np.array((elem_bl - phys_bl) / self.dx, int)"),
    ("tmp = np.array((elem_ur - phys_bl) / self.dx, int) + vmax + 1", "tmp = np.array((elem_ur - phys_bl) / self.dx, int) + 1"),
    ("box_end = np.minimum(self.__end, tmp)", "box_end = nmax"),
    ("box_beg = np.maximum(self.__beg, tmp)", "box_beg = nmin"),
    ("= not elem.isfluid", "= True"),
    ("        if np.any(nmin >= nmax):\n            return\n", "        \n"),
    ("ind_fluid = ioo_view == self.valin", "ind_fluid = np.logical_not(inside)"),
    ("            ioo_view[ind_fluid] = self.valin\n", ""),
    ("            ioo_view[ind_solid] = self.valout\n", "            pass\n"),
    ("slice(imin + vk[d], imax + vk[d])", "slice(imin - vk[d], imax - vk[d])"),
    ("grid, self.dx * vk, 1.0, self.compute_normal", "grid, vk, 1.0, self.compute_normal"),
    ("indx = np.logical_and(alpha > 0, ind_fluid)", "indx = alpha > 0"),
    ("                    indx = np.logical_and(indx, out_cells)", "                    pass  # all"),
    ("                    dist_view[k][border_to_interior] = self.valin\n", ""),
    ("                    flag_view[k][border_to_interior] = self.valin\n", ""),
    ("alpha[ind4] < dist_view[k][ind4]", "alpha[ind4] > dist_view[k][ind4]"),
    ("                            dist_view[k][ind4] == self.valin,\n", "                            dist_view[k][ind4] == self.valout,\n"),
    ("                            alpha[ind4] > dist_view[k][ind4],\n", "                            alpha[ind4] < dist_view[k][ind4],\n"),
    ("-normvect[tuple(ind + [i])]", "normvect[tuple(ind + [i])]"),
    ("flag_view[k][tuple(ind)] = border[tuple(ind)]", "flag_view[k][tuple(ind)] = border[ind4][0]"),
    ("halo_beg = self.dx * (halo_size - 0.5)", "halo_beg = self.dx * halo_size"),
    ("phys_box[k][0] + self.dx * region[k][0] - halo_beg[k]", "phys_box[k][0] + region[k][0] - halo_beg[k]"),
    ("if region[i][0] != 0:", "if region[i][0] == 0:"),
    ("if region[i][1] != self.global_size[i]:", "if region[i][1] != self.global_size[0]:"),
    ("self.in_or_out == self.valout)\n            self.distance", "self.in_or_out == self.valin)\n            self.distance"),
    ("                self.normal[k][indk] = 0\n", "                pass  # normal\n"),
]:
    r("B", ("domain.py", o, n))
r("B", ("geometry.py", "self.list_elem.append", "self.list_elem.insert(0, elem) or (lambda e: 0)"))
for o, n in [
    ("        self.in_or_out[:] = self.valout\n", "        self.in_or_out.fill(self.valout)\n"),
    ("        for i in range(self.dim):\n            if region[i][0] != 0:\n                self.box_label[2 * i] = -2\n            if region[i][1] != self.global_size[i]:\n                self.box_label[2 * i + 1] = -2\n",
     "        for i, (beg, end) in enumerate(region):\n            if beg > 0:\n                self.box_label[2 * i] = -2\n            if end < self.global_size[i]:\n                self.box_label[2 * i + 1] = -2\n"),
    ("                if elem.isfluid:\n                    # take all", "                is_fluid = elem.isfluid\n                if is_fluid:\n                    # take all"),
    ("                ind = [i[ind3] for i in ind4]\n", "                ind = [None] * self.dim\n                for d in range(self.dim):\n                    ind[d] = ind4[d][ind3]\n"),
    ("                indx = np.logical_and(alpha > 0, ind_fluid)\n                if out_cells.size != 0:\n                    indx = np.logical_and(indx, out_cells)\n", "                indx = (alpha > 0) & ind_fluid & out_cells\n"),
    ("        for k in range(self.stencil.unvtot):\n            indk = np.logical_and(self.distance[k] > 0, self.in_or_out == self.valout)\n            self.distance[k][indk] = self.valin\n            self.flag[k][indk] = self.valin\n            if self.compute_normal:\n                self.normal[k][indk] = 0\n",
     "        out = self.in_or_out == self.valout\n        self.distance[:, out] = self.valin\n        self.flag[:, out] = self.valin\n        if self.compute_normal:\n            self.normal[:, out] = 0\n"),
    ("                    for i in range(self.dim):\n                        norm_view[k][tuple(ind + [i])] = -normvect[tuple(ind + [i])]", "                    norm_view[k][tuple(ind)] = -normvect[tuple(ind)]"),
    ("dvik = (i + 0.5) / vk", "dvik = (2 * i + 1) / (2 * vk)"),
    ("        total_slice = [slice(None)] + space_slice\n        total_slice_vect = [slice(None)] + space_slice + [slice(None)]\n", "        total_slice = [slice(None), *space_slice]\n        total_slice_vect = [*total_slice, slice(None)]\n"),
    ("            vk = np.asarray(self.stencil.unique_velocities[k].v)\n            if np.any(vk != 0):\n", "            vk = np.array(self.stencil.unique_velocities[k].v)\n            if not np.all(vk == 0):\n"),
    ("self.in_or_out = self.valin * np.ones(self.shape_halo)", "self.in_or_out = np.full(self.shape_halo, float(self.valin))"),
    ("self.flag = self.valin * np.ones(total_size, dtype=\"int\")", "self.flag = np.full(total_size, self.valin, dtype=int)"),
    ("np.asarray([self.coords_halo[k][0] for k in range(self.dim)])", "np.array([c[0] for c in self.coords_halo])"),
]:
    r("R", ("domain.py", o, n))
done()
