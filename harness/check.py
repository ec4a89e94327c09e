"""check.py <property> quick|thorough"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import core
    from report import Report

    rep = Report(prop, tier, seed)
    try:
        import registry

        registry.run(prop, tier, seed, rep)
        return rep.finish()
    except Exception:
        traceback.print_exc()
        if rep.viol:  # what was found before counts
            return rep.finish()
        print(f"{prop}: the check could not be completed")
        return 2
    finally:
        core.cleanup()


if __name__ == "__main__":
    sys.exit(main())
