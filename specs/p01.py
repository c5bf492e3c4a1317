from atooms.postprocessing.correlation import gcf_offset, gcf, acf


def impl_gcf_offset(f: 'func', grid: 'list:2', skip: 'int', t: 'list', x: 'list:3'):
    return gcf_offset(f, grid, skip, t, x)


def spec_gcf_offset(f: 'func', grid: 'list:2', skip: 'int', t: 'list', x: 'list:3'):
    total = {}
    count = {}
    for pair in grid:
        for start in range(pair[0], len(x) - pair[1], skip):
            lag = t[start + pair[1]] - t[start]
            total[lag] = total.get(lag, 0.0) + f(x[start + pair[1]], x[start])
            count[lag] = count.get(lag, 0) + 1
    lags = sorted(total)
    return lags, [total[lag] / count[lag] for lag in lags]


def impl_gcf(f: 'func', grid: 'list', skip: 'int', t: 'list', x: 'list:3'):
    return gcf(f, grid, skip, t, x)


def spec_gcf(f: 'func', grid: 'list', skip: 'int', t: 'list', x: 'list:3'):
    pairs = [(i0, i) for i in grid for i0 in range(0, len(x) - i, skip)]
    lags = sorted({t[i0 + i] - t[i0] for i0, i in pairs})
    total = [sum(f(x[i0 + i], x[i0]) for i0, i in pairs if t[i0 + i] - t[i0] == lag) for lag in lags]
    count = [len([1 for i0, i in pairs if t[i0 + i] - t[i0] == lag]) for lag in lags]
    return lags, [total[j] / count[j] for j in range(len(lags))], count


def impl_acf(grid: 'list', skip: 'int', t: 'list', x: 'list'):
    return acf(grid, skip, t, x)[:2]


def spec_acf(grid: 'list', skip: 'int', t: 'list', x: 'list'):
    mean = sum(x) / len(x)
    total = {}
    count = {}
    for i in grid:
        for i0 in range(0, len(x) - i, skip):
            lag = t[i0 + i] - t[i0]
            total[lag] = total.get(lag, 0.0) + (x[i0 + i] - mean) * (x[i0] - mean)
            count[lag] = count.get(lag, 0) + 1
    lags = sorted(total)
    return lags, [total[lag] / count[lag] for lag in lags]
