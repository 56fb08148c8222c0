from mut import suite
r, done = suite("C19")
A, S, B = "algorithm/base.py", "symbolic.py", "boundary.py"
r("B", (A, "Z = simulation.domain.coords[2]", "Z = simulation.domain.coords[1]"))
r("B", (A, "nz = mm.nspace[2]", "nz = mm.nspace[1]"))
r("B", (A, "nx = mm.nspace[0]", "nx = simulation.container.m.nspace[0]"))
r("B", (A, "m = mm.array", "m = simulation.container.m.array"))
r("B", (A, "f = f_user.array", "f = m_user.array"))
r("B", (A, "            f = f_user.array\n        else:\n            f = simulation.container.F.array\n        fnew", "            f = simulation.container.F.array\n        else:\n            f = simulation.container.F.array\n        fnew"))
r("B", (A, "fnew = simulation.container.Fnew.array", "fnew = simulation.container.F.array"))
r("B", (A, "            mm = m_user\n", "            mm = simulation.container.m\n"))
r("B", (A, "X = simulation.domain.coords[0]", "X = simulation.domain.coords_halo[0]"))
r("B", (A, "dt = simulation.dt", "dt = simulation.t"))
r("B", (A, "valin = simulation.domain.valin", "valin = simulation.domain.valout"))
r("B", (A, 'extra["lambda_"] = extra["lambda"]', 'extra["lambda_"] = extra.get("LA")'))
r("B", (A, "local.update(extra)\n        return locals()", "return locals()"))
r("B", (A, "args.update(kwargs)\n", "args = dict(kwargs, **args)\n"))
r("B", (A, "args = self._get_args(simulation, m_user, f_user)", "args = self._get_args(simulation, m_user)"))
r("B", (A, "args = self._get_args(simulation, m_user, f_user)", "args = self._get_args(simulation, f_user, m_user)"))
r("B", (A, "getattr(self.generator.module, function_name)", "getattr(simulation.generator, function_name)"))
r("B", (A, "        call_genfunction(func, args)", "        if not m_user:\n            call_genfunction(func, args)"))
r("B", (S, "d = {k: args[k] for k in func_args}  # pylint: disable=invalid-name\n    monitor", "d = dict(args)\n    monitor"))
r("B", (S, 'd["queue"] = queue', 'pass'), ) if False else None
r("B", (B, "ny = ff.nspace[1]", "ny = ff.nspace[0]"))
r("B", (B, "        f = ff.array\n\n        for i", "        f = ff.swaparray\n\n        for i"))
r("B", (B, "dist = self.s", "dist = self.distance"))
r("B", (B, "ncond = istore.shape[0]", "ncond = istore.shape[1]"))
r("B", (B, 'exec("iload{i} = self.iload[{i}]".format(i=i))', 'exec("iload{i} = self.iload[0]".format(i=i))'))
r("B", (B, "        args.update(kwargs)\n        call_genf", "        call_genf"))
# refactorings
r("R", (A, """        local = locals()
        extra = {str(k): v for k, v in simulation.extra_parameters.items()}
        if extra.get("lambda", None):
            extra["lambda_"] = extra["lambda"]
        local.update(extra)
        return locals()""", """        args = dict(locals())
        for k, v in simulation.extra_parameters.items():
            args.setdefault(str(k), v)
            if str(k) == "lambda" and v:
                args["lambda_"] = v
        return args"""))
r("R", (A, """        if m_user:
            mm = m_user
        else:
            mm = simulation.container.m
        m = mm.array
""", """        container = simulation.container
        mm = m_user if m_user else container.m
        m = mm.array
"""))
r("R", (A, """        nx = mm.nspace[0]
        X = simulation.domain.coords[0]
        if dim > 1:
            ny = mm.nspace[1]
            Y = simulation.domain.coords[1]
        if dim > 2:
            nz = mm.nspace[2]
            Z = simulation.domain.coords[2]
""", """        args = {}
        for size, coord, n, x in zip(["nx", "ny", "nz"], ["X", "Y", "Z"], mm.nspace, simulation.domain.coords):
            args[size] = n
            args[coord] = x
"""), (A, "return locals()", "local.update(args)\n        return local"))
r("R", (A, "X = simulation.domain.coords[0]", "X = simulation.domain.x"))
r("R", (A, "        args = self._get_args(simulation, m_user, f_user)\n        args.update(kwargs)\n        call_genfunction(func, args)", "        call_genfunction(func, {**self._get_args(simulation, m_user, f_user), **kwargs})"))
r("R", (S, """    try:
        func_args = function.arg_dict.keys()
        d = {k: args[k] for k in func_args}  # pylint: disable=invalid-name
        d["queue"] = queue
    except:  # noqa: E722
        func_args = inspect.getfullargspec(function).args
        d = {k: args[k] for k in func_args}  # pylint: disable=invalid-name
    monitor(function)(**d)""", """    extra = {}
    try:
        names = list(function.arg_dict)
        extra["queue"] = queue
    except AttributeError:
        names = inspect.getfullargspec(function).args
    call_args = {name: args[name] for name in names}
    call_args.update(extra)
    monitor(function)(**call_args)"""))
r("R", (S, """        func_args = inspect.getfullargspec(function).args
        d = {k: args[k] for k in func_args}  # pylint: disable=invalid-name
    monitor(function)(**d)""", """        func_args = inspect.signature(function).parameters
        d = {k: args[k] for k in func_args}  # pylint: disable=invalid-name
    monitor(function)(**d)"""))
r("R", (B, """        for i in range(len(self.iload)):
            exec("iload{i} = self.iload[{i}]".format(i=i))  # pylint: disable=exec-used

        istore = self.istore
        rhs = self.rhs
        if hasattr(self, "s"):
            dist = self.s
        ncond = istore.shape[0]
        return locals()""", """        args = {}
        for i, iload in enumerate(self.iload):
            args[f"iload{i}"] = iload

        istore = self.istore
        rhs = self.rhs
        if hasattr(self, "s"):
            dist = self.s
        ncond = istore.shape[0]
        args.update(locals())
        return args"""))
done()
