from mut import suite
r, done = suite("C01")
S = "simulation.py"
BCL = "        for method in self.bc.methods:\n            method.update_feq(self)\n            method.set_rhs()\n            method.update(f, **kwargs)\n"
SW = "        self.container.F, self.container.Fnew = self.container.Fnew, self.container.F\n"
CALL = "        self.algo.call_function(\"one_time_step\", self, **kwargs)\n"
T = "        self.t += self.dt\n        self.nt += 1\n"
T0 = "        self.t += self.dt\n        self.nt += 1"
r("B", (S, "        f.update()\n", ""))
r("B", (S, "            method.set_rhs()\n            method.update(f, **kwargs)", "            method.update(f, **kwargs)\n            method.set_rhs()"))
r("B", (S, "            method.update_feq(self)\n            method.set_rhs()\n", "            method.set_rhs()\n            method.update_feq(self)\n"))
r("B", (S, "            method.update_feq(self)\n", ""))
r("B", (S, "            method.update_feq(self)\n", "            if self.nt == 0:\n                method.update_feq(self)\n"))
r("B", (S, "            method.update_feq(self)\n", "            if self.nt % 2 == 0:\n                method.update_feq(self)\n"))
r("B", (S, SW, ""))
r("B", (S, SW, "        self.container.F = self.container.Fnew\n"))
r("B", (S, CALL + SW, SW + CALL))
r("B", (S, T0, "        self.t += self.dt"))
r("B", (S, T0, "        self.nt += 1\n        self.t += self.nt * self.dt"))
r("B", (S, "        self.boundary_condition(**kwargs)\n\n" + CALL, "        self.t += self.dt\n        self.boundary_condition(**kwargs)\n\n" + CALL), (S, "\n        self.t += self.dt\n        self.nt += 1", "\n        self.nt += 1"))
r("B", (S, "        self.boundary_condition(**kwargs)\n\n" + CALL, CALL + "        self.boundary_condition(**kwargs)\n"))
r("B", (S, "        if self._need_init:\n            self._initialize()\n", ""))
r("B", (S, "        self._need_init = False", "        pass"))
r("B", (S, "        f = self.container.F\n        f.update()", "        f = self.container.Fnew\n        f.update()"))
r("B", (S, "self.algo.call_function(\"one_time_step\", self, **kwargs)", "self.algo.call_function(\"transport\", self, **kwargs)"))
r("B", (S, "self.dt_ = self.domain.dx / self.scheme.la", "self.dt_ = self.scheme.la / self.domain.dx"))
r("B", (S, "self.dt_ = self.domain.dx / self.scheme.la", "self.dt_ = self.domain.dx"))
r("B", (S, "        self.t = 0.0\n", "        self.t = 0.5\n"))
r("B", (S, "        self.nt = 0\n", "        self.nt = 1\n"))
r("B", (S, "list(self.scheme.param.items()) + list(self.extra_parameters.items())", "list(self.scheme.param.items())"))
r("B", (S, "        if initialize:\n            self._initialize()\n", "        self._initialize()\n"))
r("B", (S, "        for method in self.bc.methods:\n            method.update_feq(self)", "        for method in self.bc.methods[:2]:\n            method.update_feq(self)"))
r("B", (S, "            method.update(f, **kwargs)", "            method.update(f)"))
r("B", (S, CALL, "        self.algo.call_function(\"one_time_step\", self)\n"))
# same behaviour
r("R", (S, BCL, "        for method in self.bc.methods:\n            method.update_feq(self)\n        for method in self.bc.methods:\n            method.set_rhs()\n        for method in self.bc.methods:\n            method.update(f, **kwargs)\n"))
r("R", (S, BCL, "        self._apply_methods(f, **kwargs)\n"), (S, "    @monitor\n    def one_time_step", "    def _apply_methods(self, f, **kw):\n        methods = self.bc.methods\n        k = 0\n        while k < len(methods):\n            method = methods[k]\n            method.update_feq(self)\n            method.set_rhs()\n            method.update(f, **kw)\n            k += 1\n\n    @monitor\n    def one_time_step"))
r("R", (S, SW, "        old = self.container.F\n        self.container.F = self.container.Fnew\n        self.container.Fnew = old\n"))
r("R", (S, SW, "        c = self.container\n        c.Fnew, c.F = c.F, c.Fnew\n"))
r("R", (S, "        self._update_m = True  # we recompute f so m will be not correct\n\n        self.boundary_condition(**kwargs)\n", "        self.boundary_condition(**kwargs)\n        self._update_m = True\n"))
r("R", (S, T0, "        self.nt = self.nt + 1\n        self.t = self.dt + self.t"))
r("R", (S, T0, "        self._advance()"), (S, "    @monitor\n    def one_time_step", "    def _advance(self):\n        self.t, self.nt = self.t + self.dt, self.nt + 1\n\n    @monitor\n    def one_time_step"))
r("R", (S, "            subs = list(self.scheme.param.items()) + list(self.extra_parameters.items())\n            self.dt_ = float(self.dt_.subs(subs))\n            return self.dt_\n        else:\n            return self.dt_", "            subs = [*self.scheme.param.items(), *self.extra_parameters.items()]\n            self.dt_ = float(self.dt_.subs(subs))\n        return self.dt_"))
r("R", (S, "        f = self.container.F\n        f.update()\n\n", "        container = self.container\n        container.F.update()\n        f = container.F\n"))
r("R", (S, "        if self._need_init:\n            self._initialize()\n\n        self._update_m", "        if not self._need_init:\n            pass\n        else:\n            self._initialize()\n\n        self._update_m"))
r("R", (S, "        self.t = 0.0\n        self.nt = 0\n", "        self.t, self.nt = 0.0, 0\n"))
r("R", (S, "        self.dt_ = self.domain.dx / self.scheme.la\n", "        dx, la = self.domain.dx, self.scheme.la\n        self.dt_ = dx / la\n"))
r("R", (S, "        for method in self.bc.methods:\n            method.prepare_rhs(self)\n            method.fix_iload()\n            method.set_rhs()\n            method.move2gpu()\n", "        for method in list(self.bc.methods):\n            method.prepare_rhs(self)\n            method.fix_iload()\n            method.set_rhs()\n            method.move2gpu()\n"))
done()
