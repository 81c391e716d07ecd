"""The public indicators: input columns and parameter sets used by the checks."""
H, L, O, C, V = 'high', 'low', 'open', 'close', 'volume'

# name: (columns, default kwargs, small kwargs used for symbolic runs, minimum rows for kwargs)
IND = {
    'AccumulationDistributionLine': ((H, L, C, V), {}, {}),
    'AverageTrueRange': ((H, L, C), {}, {}),
    'BollingerBands': ((C,), dict(period=20, std_number=2), dict(period=3, std_number=2)),
    'ChaikinMoneyFlow': ((H, L, C, V), dict(period=5), dict(period=2)),
    'ChaikinOscillator': ((H, L, C, V), {}, {}),
    'ChandeMomentumOscillator': ((C,), dict(period=5), dict(period=3)),
    'CommodityChannelIndex': ((H, L, C), dict(period=5), dict(period=3)),
    'DetrendedPriceOscillator': ((C,), dict(period=6), dict(period=4)),
    'DirectionalMovementIndex': ((H, L, C), {}, {}),
    'DoubleExponentialMovingAverage': ((C,), dict(period=5), dict(period=3)),
    'EaseOfMovement': ((H, L, V), dict(period=40), dict(period=2)),
    'Envelopes': ((C,), dict(period=20, shift=0.10), dict(period=3, shift=0.1)),
    'FibonacciRetracement': ((C,), {}, {}),
    'ForecastOscillator': ((C,), dict(period=14), dict(period=3)),
    'IchimokuCloud': ((H, L, C), {}, {}),
    'IntradayMomentumIndex': ((O, C), dict(period=14), dict(period=3)),
    'KlingerOscillator': ((H, L, C, V), {}, {}),
    'LinearRegressionIndicator': ((C,), dict(period=14), dict(period=3)),
    'LinearRegressionSlope': ((C,), dict(period=14), dict(period=3)),
    'MarketFacilitationIndex': ((H, L, V), {}, {}),
    'MassIndex': ((H, L, C), {}, {}),
    'MedianPrice': ((H, L, C), dict(period=20), dict(period=3)),
    'Momentum': ((C,), dict(period=12), dict(period=3)),
    'MovingAverage': ((C,), dict(period=20, ma_type='simple'), dict(period=3, ma_type='simple')),
    'MovingAverageConvergenceDivergence': ((C,), {}, {}),
    'NegativeVolumeIndex': ((C, V), {}, {}),
    'OnBalanceVolume': ((C, V), {}, {}),
    'ParabolicSAR': ((H, L, C), {}, {}),
    'Performance': ((C,), dict(mode='LONG', target=0.05), dict(mode='LONG', target=0.05)),
    'PositiveVolumeIndex': ((C, V), {}, {}),
    'PriceAndVolumeTrend': ((C, V), {}, {}),
    'PriceChannel': ((H, L, C), dict(period=5), dict(period=3)),
    'PriceOscillator': ((C,), dict(long_ma=30, short_ma=10), dict(long_ma=3, short_ma=2)),
    'PriceRateOfChange': ((C,), dict(period=25), dict(period=3)),
    'ProjectionBands': ((H, L, C), dict(period=14), dict(period=3)),
    'ProjectionOscillator': ((H, L, C), dict(period=14), dict(period=3)),
    'Qstick': ((O, C), dict(period=8), dict(period=3)),
    'RangeIndicator': ((H, L, C, V), dict(range_period=5, smoothing_period=3), dict(range_period=2, smoothing_period=2)),
    'RelativeMomentumIndex': ((C,), dict(period=8, momentum_period=4), dict(period=3, momentum_period=2)),
    'RelativeStrengthIndex': ((C,), dict(period=14), dict(period=3)),
    'RelativeVolatilityIndex': ((H, L), dict(period=5), dict(period=2)),
    'StandardDeviation': ((C,), dict(period=20), dict(period=3)),
    'StochasticMomentumIndex': ((H, L, C), dict(period=5, smoothing_period=3, double_smoothing_period=3),
                                dict(period=2, smoothing_period=2, double_smoothing_period=2)),
    'StochasticOscillator': ((H, L, C), dict(k_periods=14, k_slowing_periods=1, d_periods=3, d_method='simple'),
                             dict(k_periods=3, k_slowing_periods=3, d_periods=2, d_method='simple')),
    'SwingIndex': ((O, H, L, C), {}, {}),
    'TimeSeriesForecast': ((C,), dict(period=14), dict(period=3)),
    'TripleExponentialMovingAverage': ((C,), dict(period=5), dict(period=2)),
    'TypicalPrice': ((H, L, C), dict(period=200), dict(period=3)),
    'UltimateOscillator': ((H, L, C), {}, {}),
    'VerticalHorizontalFilter': ((C,), dict(period=5), dict(period=3)),
    'VolatilityChaikins': ((H, L), dict(ema_period=10, change_period=10), dict(ema_period=3, change_period=2)),
    'VolumeOscillator': ((V,), dict(long_period=5, short_period=2), dict(long_period=3, short_period=2)),
    'VolumeRateOfChange': ((V,), dict(period=5), dict(period=3)),
    'WeightedClose': ((H, L, C), {}, {}),
    'WildersSmoothing': ((C,), dict(period=5), dict(period=3)),
    'WilliamsAccumulationDistribution': ((H, L, C), {}, {}),
    'WilliamsR': ((H, L, C), dict(period=5), dict(period=3)),
}
