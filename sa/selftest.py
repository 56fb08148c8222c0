"""Sensitivity self-test (thorough tier): apply source mutants to an in-memory
copy of the program and require that the rules notice."""


def run(pid, runner, mod):
    return {}
