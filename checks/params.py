"""Constructor parameters of the indicators and what is documented to be acceptable."""
# kind: int (whole number >= lo) | pos (int or float > 0) | frac (float strictly between 0 and 1) | slow (1 or 3) | choice | target
PER = [('period', 'int', 1)]
PER2 = [('period', 'int', 2)]
PARAMS = {
    'BollingerBands': PER + [('std_number', 'pos', None)],
    'Envelopes': PER + [('shift', 'frac', None)],
    'ForecastOscillator': PER2, 'LinearRegressionIndicator': PER2, 'ProjectionBands': PER2, 'ProjectionOscillator': PER2,
    'TimeSeriesForecast': PER2,
    'MovingAverage': PER + [('ma_type', 'choice', ['simple', 'exponential', 'time_series', 'triangular', 'variable'])],
    'Performance': [('mode', 'choice', ['LONG', 'SHORT']), ('target', 'target', None)],
    'PriceOscillator': [('long_ma', 'int', 1), ('short_ma', 'int', 1)],
    'RangeIndicator': [('range_period', 'int', 1), ('smoothing_period', 'int', 1)],
    'RelativeMomentumIndex': PER + [('momentum_period', 'int', 1)],
    'StochasticMomentumIndex': PER + [('smoothing_period', 'int', 1), ('double_smoothing_period', 'int', 1)],
    'StochasticOscillator': [('k_periods', 'int', 1), ('k_slowing_periods', 'slow', None), ('d_periods', 'int', 1),
                             ('d_method', 'choice', ['simple', 'exponential'])],
    'VolatilityChaikins': [('ema_period', 'int', 1), ('change_period', 'int', 1)],
    'VolumeOscillator': [('long_period', 'int', 1), ('short_period', 'int', 1)],
}
for _n in ('ChaikinMoneyFlow', 'ChandeMomentumOscillator', 'CommodityChannelIndex', 'DetrendedPriceOscillator', 'Qstick',
           'DoubleExponentialMovingAverage', 'EaseOfMovement', 'IntradayMomentumIndex', 'LinearRegressionSlope', 'MedianPrice',
           'Momentum', 'PriceChannel', 'PriceRateOfChange', 'RelativeStrengthIndex', 'RelativeVolatilityIndex', 'StandardDeviation',
           'TripleExponentialMovingAverage', 'TypicalPrice', 'VerticalHorizontalFilter', 'VolumeRateOfChange', 'WildersSmoothing',
           'WilliamsR'):
    PARAMS[_n] = PER
# the first must be greater than the second
GREATER = {'PriceOscillator': ('long_ma', 'short_ma'), 'VolumeOscillator': ('long_period', 'short_period')}
COLUMNS = {}     # filled in by the checks from the reference definitions

# the kinds of value tried for one parameter
KINDS = ('int', 'real', 'true', 'false', 'none', 'str', 'list', 'nan', 'npint', 'complex', 'inf')
