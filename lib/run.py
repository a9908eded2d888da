import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drv
if __name__ == '__main__':
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    mod = importlib.import_module('props.' + pid)
    drv.main(pid, tier, mod.run, getattr(mod, 'LEVEL', 'model_checking'))
