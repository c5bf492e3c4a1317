"""Optional dependencies: compiled extensions and progress bars."""


def impl_defaults():
    import atooms.postprocessing as pp
    return (pp.SelfIntermediateScattering is pp.SelfIntermediateScatteringFast, pp.SelfIntermediateScattering is pp.SelfIntermediateScatteringLegacy,
            pp.RadialDistributionFunction is pp.RadialDistributionFunctionFast, pp.RadialDistributionFunction is pp.RadialDistributionFunctionLegacy,
            pp.StructureFactor is pp.StructureFactorLegacy, pp.StructureFactorOptimized is pp.StructureFactorFast)


def spec_defaults():
    return True, False, True, False, True, True


def impl_defaults_without():
    return impl_defaults()


def spec_defaults_without():
    return False, True, False, True, True, True


def impl_fallback(trj: 'traj', kv: 'list:3', tgrid: 'list', grid: 'list', which: ('fskt', 'gr')):
    import atooms.postprocessing as pp
    if which == 'fskt':
        cf = pp.SelfIntermediateScattering(trj, [], tgrid)
        cf.kvectors = kv
        return cf.compute()
    return pp.RadialDistributionFunction(trj, grid).compute()


def spec_fallback(trj: 'traj', kv: 'list:3', tgrid: 'list', grid: 'list', which: ('fskt', 'gr')):
    import atooms.postprocessing as pp
    if which == 'fskt':
        cf = pp.SelfIntermediateScatteringLegacy(trj, [], tgrid)
        cf.kvectors = kv
        return cf.compute()
    return pp.RadialDistributionFunctionLegacy(trj, grid).compute()


def impl_plain(xs: 'list', n: 'int'):
    from atooms.postprocessing.progress import progress
    bar = progress(xs, total=n)
    out = [x for x in bar]
    bar.update(1)
    bar.close()
    return out, len(bar), [x for x in progress(range(n))], [x for x in progress(enumerate(xs), total=n)]


def spec_plain(xs: 'list', n: 'int'):
    return list(xs), len(xs), list(range(n)), list(enumerate(xs))


def impl_again(xs: 'list'):
    from atooms.postprocessing.progress import progress
    with progress(xs) as bar:
        return [x for x in bar], [x for x in bar]


def spec_again(xs: 'list'):
    return list(xs), list(xs)


def impl_bar(xs: 'list', n: 'int', on: (False, True)):
    from atooms.postprocessing import progress
    progress.active = on
    return [x for x in progress.progress(xs, total=n)]


def spec_bar(xs: 'list', n: 'int', on: (False, True)):
    from atooms.postprocessing import progress
    progress.active = on
    return list(xs)


def impl_bar_again(xs: 'list', on: (False, True)):
    from atooms.postprocessing.progress import progress
    bar = progress(xs, active=on)
    with bar as b:
        return [x for x in b], [x for x in bar], bar.iterable


def spec_bar_again(xs: 'list', on: (False, True)):
    return list(xs), list(xs), xs
