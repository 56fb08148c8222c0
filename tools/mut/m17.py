from mut import suite
r, done = suite("C17")
F = "monitoring.py"
W = """        try:
            return f(*args, **kwds)
        finally:
            Monitor.stop_timing(f)
"""
r("B", (F, W, "        output = f(*args, **kwds)\n        Monitor.stop_timing(f)\n        return output\n"))
r("B", (F, W, "        try:\n            f(*args, **kwds)\n        finally:\n            Monitor.stop_timing(f)\n"))
r("B", (F, W, "        try:\n            return f(*args)\n        finally:\n            Monitor.stop_timing(f)\n"))
r("B", (F, W, "        try:\n            return f(*args, **kwds)\n        except Exception:\n            pass\n        finally:\n            Monitor.stop_timing(f)\n"))
r("B", (F, W, "        try:\n            out = f(*args, **kwds)\n        except ValueError:\n            Monitor.stop_timing(f)\n            raise\n        Monitor.stop_timing(f)\n        return out\n"))
r("B", (F, W, "        try:\n            return f(*args, **kwds)\n        finally:\n            Monitor.stop_timing(wrapper)\n"))
r("B", (F, "        Monitor.start_timing(f)\n", ""))
r("B", (F, "        self.tree = self.tree.del_node()", "        self.tree.del_node()"))
r("B", (F, "return self.parent\n", "return self.parent.parent or self.parent\n"))
r("B", (F, "self.parent.time += t", "self.parent.time = t"))
r("B", (F, "self.parent.time += t", "self.time += t"))
r("B", (F, "- self.tree.time)\n", "- self.tree.parent.time)\n"))
r("B", (F, "        self.func[info].self_time.append(total_time - self.tree.time)\n", ""))
r("B", (F, "self.self_time = []", "self.self_time = self.total_time"))
r("B", (F, "        if not self.func.get(info, None):\n            self.func", "        self.func"))
r("B", (F, "total_time = t - self.tree.start", "total_time = t - self.tree.parent.start"))
r("B", (F, "return (mod_name, f_name)", "return (mod_name, mod_name)"))
r("B", (F, "        self.sons.clear()\n        return self.parent", "        return self.sons[-1] if self.sons else self.parent"))
r("B", (F, "return self.sons[-1]", "return self.sons[0]"))
r("B", (F, "        self.tree.add_time(total_time)\n", "        self.tree.add_time(self.func[info].self_time[-1])\n"))
# refactorings
r("R", (F, W, "        try:\n            output = f(*args, **kwds)\n        except BaseException:\n            Monitor.stop_timing(f)\n            raise\n        else:\n            Monitor.stop_timing(f)\n        return output\n"))
r("R", (F, """        info = self.information(f)
        t = mpi.Wtime()
        total_time = t - self.tree.start
        self.func[info].total_time.append(total_time)
        self.func[info].self_time.append(total_time - self.tree.time)
        self.tree.add_time(total_time)
        self.tree = self.tree.del_node()""", """        end = mpi.Wtime()
        perf = self.func[self.information(f)]
        elapsed = end - self.tree.start
        perf.total_time.append(elapsed)
        perf.self_time.append(elapsed - self.tree.time)
        node, self.tree = self.tree, self.tree.parent
        self.tree.time += elapsed
        node.sons.clear()"""))
r("R", (F, "        if not self.func.get(info, None):\n            self.func[info] = PerfMonitor()", "        if info not in self.func:\n            self.func[info] = PerfMonitor()"))
r("R", (F, "        if not self.func.get(info, None):\n            self.func[info] = PerfMonitor()", "        self.func.setdefault(info, PerfMonitor())"))
r("R", (F, "        self.sons.append(Node(self, name))\n        return self.sons[-1]", "        node = Node(parent=self, name=name)\n        self.sons.append(node)\n        return node"))
r("R", (F, """        mod_name = inspect.getmodule(f).__name__
        try:
            f_name = f.__qualname__
            return (mod_name, f_name)
        except:  # noqa: E722
            pass""", """        mod_name = inspect.getmodule(f).__name__
        f_name = getattr(f, "__qualname__", None)
        return (mod_name, f_name)"""))
r("R", (F, """        Monitor.register(f)
        Monitor.start_timing(f)
        try:""", """        Monitor.start_timing(f)
        try:"""), (F, "        info = self.information(f)\n        self.tree = self.tree.add", "        self.register(f)\n        info = self.information(f)\n        self.tree = self.tree.add"))
r("R", (F, "    @wraps(f)\n", "    @wraps(f)\n    # the timing\n"), (F, W, "        result = None\n        try:\n            result = f(*args, **kwds)\n        finally:\n            Monitor.stop_timing(f)\n        return result\n"))
done()
