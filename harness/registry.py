"""Which code decides which property."""


def run(prop, tier, seed, rep):
    import sampler_checks

    if prop in sampler_checks.FAMILIES:
        return sampler_checks.run(prop, tier, seed, rep)
    if prop == "P05":
        return sampler_checks.run_ffbs(prop, tier, seed, rep)
    if prop == "P06":
        return sampler_checks.run_mvn(prop, tier, seed, rep)
    if prop == "P08":
        import matching

        return matching.run(prop, tier, seed, rep)
    if prop == "P10":
        import rng

        return rng.run(prop, tier, seed, rep)
    if prop in ("P11", "P12"):
        import prior

        return (prior.run_prior if prop == "P11" else prior.run_ir)(prop, tier, seed, rep)
    if prop == "P13":
        import transforms

        return transforms.run(prop, tier, seed, rep)
    if prop == "P14":
        import modelinfo

        return modelinfo.run(prop, tier, seed, rep)
    if prop == "P15":
        import polya

        return polya.run(prop, tier, seed, rep)
    if prop == "P16":
        import shape

        return shape.run(prop, tier, seed, rep)
    raise SystemExit(f"unknown property {prop}")
