import importlib, os, sys
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
os.environ['MPLBACKEND'] = 'Agg'
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from . import core
    mod = importlib.import_module(f'contracts.{pid.lower()}')
    sys.exit(core.run_check(pid, mod, tier, seed))


if __name__ == '__main__':
    main()
