"""Documented minimum number of rows of each indicator."""
MINROWS = {'AverageTrueRange': 14, 'ChaikinOscillator': 10, 'DirectionalMovementIndex': 28, 'KlingerOscillator': 55,
           'MassIndex': 25, 'MovingAverageConvergenceDivergence': 26, 'NegativeVolumeIndex': 2,
           'PositiveVolumeIndex': 2, 'PriceAndVolumeTrend': 2, 'ParabolicSAR': 2, 'UltimateOscillator': 28}
NOMIN = {'AccumulationDistributionLine', 'FibonacciRetracement', 'IchimokuCloud', 'MarketFacilitationIndex', 'MedianPrice',
         'OnBalanceVolume', 'Performance', 'TypicalPrice', 'SwingIndex', 'WeightedClose',
         'WilliamsAccumulationDistribution'}


def minrows(name, kw):
    """documented minimum number of rows"""
    if name in MINROWS:
        return MINROWS[name]
    if name in NOMIN:
        return 1
    if name == 'EaseOfMovement':
        return max(kw['period'], 2)
    if name == 'RelativeStrengthIndex':
        return kw['period'] + 1
    if name == 'RelativeMomentumIndex':
        return kw['period'] + kw['momentum_period']
    if name == 'RelativeVolatilityIndex':
        return kw['period'] + 10
    if name == 'RangeIndicator':
        return max(kw['range_period'], kw['smoothing_period'])
    if name == 'VolatilityChaikins':
        return max(kw['ema_period'], kw['change_period'])
    if name == 'VolumeOscillator':
        return kw['long_period']
    if name == 'PriceOscillator':
        return kw['long_ma']
    if name == 'StochasticOscillator':
        return kw['k_periods']
    if name == 'MovingAverage' and kw.get('ma_type') == 'variable':
        return 22
    return kw['period']
