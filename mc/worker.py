"""The process that runs one check."""
import importlib
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def main():
    prop, tier, seed, replay = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    from mc import core, env
    ctx = core.Ctx(prop, tier, seed, replay or None)
    try:
        env.load_pyspectral()
    except Exception as err:
        ctx.fail_plain("import", "pyspectral cannot be imported: %r" % (err,))
        traceback.print_exc()
        return ctx.finish()
    module = importlib.import_module("mc.checks.%s" % prop.lower())
    try:
        module.run(ctx)
    except core.StopCheck:
        pass
    except (MemoryError, KeyboardInterrupt):
        traceback.print_exc()
        return 2
    except OSError as err:
        import errno
        if err.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN):
            traceback.print_exc()
            return 2
        traceback.print_exc()
        ctx.fail_plain("harness", "unexpected %r" % (err,))
    except Exception as err:
        traceback.print_exc()
        ctx.fail_plain("harness", "unexpected %r" % (err,))
    return ctx.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
