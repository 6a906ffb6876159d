#!/usr/bin/env python3
"""check.py <property id>: decide one property of /repo's working tree (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True
import rig


def main():
    pid = sys.argv[1]
    import registry
    try:
        rc = registry.run(pid)
    except rig.MachineryError as e:
        print("ERROR %s: %s" % (pid, e), flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        rig.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
