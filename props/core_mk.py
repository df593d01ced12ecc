from vf import build
def mk(pre=""): return lambda: [build.harness("core", ["src/filters/causal-filter.cpp"], "core.cpp", shim=False)] + ([pre] if pre else [])
