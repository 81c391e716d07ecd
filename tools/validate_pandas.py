import sys; sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import warnings; warnings.simplefilter('ignore')
import numpy as np, pandas as pd
real={}
r=np.random.RandomState(1)
base=[]
for k in range(6):
    v=r.randint(0,5,12).astype(float); v[r.rand(12)<.3]=np.nan; base.append(v)
ix=pd.date_range('2020-01-01',periods=12).delete(3).append(pd.DatetimeIndex(['2020-03-01']))
ops={'ff0':lambda s:s.ffill(),'bf0':lambda s:s.bfill(),
 'interp':lambda s:s.interpolate(),'interp_lim':lambda s:s.interpolate(limit=1),'ib':lambda s:s.interpolate(limit_direction='both',limit=1),
 'it':lambda s:s.interpolate(method='time'),'in':lambda s:s.interpolate(method='linear',limit_area='inside'),'ibk':lambda s:s.interpolate(limit_direction='backward'),
 'rank':lambda s:s.rank(),'rankm':lambda s:s.rank(method='min',ascending=False),'rp':lambda s:s.rank(pct=True,method='first'),
 'uniq':lambda s:pd.Series(s.unique()),'dd':lambda s:s.drop_duplicates(),'ddl':lambda s:s.drop_duplicates(keep='last'),
 'isin':lambda s:s.isin([1.0,np.nan])*1.0,'q':lambda s:pd.Series([s.quantile(.3)]),'sv':lambda s:s.sort_values(kind='stable'),'svd':lambda s:s.sort_values(ascending=False,kind='stable'),
 'nl':lambda s:s.nlargest(3),'gb':lambda s:s.groupby(s.index.month).sum(),'gbl':lambda s:s.groupby(s.index.month).last(),'gbm':lambda s:s.groupby(s.index.month).mean(),
 'gt':lambda s:s.groupby(np.arange(len(s))//5).transform('max'),'rs':lambda s:s.resample('W').sum(),'rsl':lambda s:s.resample('5D').last(),
 'gcum':lambda s:s.groupby(np.arange(len(s))//5).cumsum(),'ffl':lambda s:s.ffill(limit=1),'bfl':lambda s:s.bfill(limit=2),'fl':lambda s:s.fillna(s.shift(1)),
 'cummax':lambda s:s.cummax(),'between':lambda s:s.between(1,3)*1.0,'mask':lambda s:s.mask(s>2),'comb':lambda s:s.combine_first(s.shift(2)),
 'asfreq':lambda s:s.asfreq('D'),'mono':lambda s:pd.Series([s.is_monotonic_increasing,s.hasnans,s.is_unique])*1.0,
 'corr':lambda s:pd.Series([s.corr(s.shift(1)),s.cov(s.shift(2))]),'df':lambda s:s.to_frame('a').assign(b=s.shift(1)).drop_duplicates(subset='a')['b'],
 'dfsv':lambda s:s.to_frame('a').assign(b=s.shift(1)).sort_values('b',kind='stable')['a'],'skew':lambda s:pd.Series([s.skew()]),
 'gbs':lambda s:s.groupby(s.index.month).first(),'upd':lambda s:(lambda t:(t.update(s.shift(1)),t)[1])(s.copy()),'fvi':lambda s:pd.Series([1.0],index=[s.first_valid_index()]),
 'desc':lambda s:s.describe(),'map':lambda s:s.map(lambda x:x+1),'dup':lambda s:s[~s.index.duplicated()],'median':lambda s:s.rolling(3,min_periods=1).median(),
 'mean':lambda s:s.expanding().max(),'ac':lambda s:pd.Series([s.autocorr()]),'mode':lambda s:s.mode(),'vc':lambda s:s.value_counts(),'clip':lambda s:s.clip(1,2),
 'repl':lambda s:s.replace(0,np.nan),'repl2':lambda s:s.replace([0,1],method='ffill'),'argsort':lambda s:s.sort_index(ascending=False).dropna(how='any'),'stack':lambda s:s.to_frame('a').stack(),
 'pct':lambda s:s.pct_change(fill_method=None),'pct2':lambda s:s.pct_change(),'idx':lambda s:pd.Series([1.0],index=[s.idxmax()]),
}
exp={n:[f(pd.Series(v,index=ix)) for v in base] if n not in() else 0 for n,f in ops.items()}
from symx import core, loader
T=loader.SymTTI(); T.load('tti.indicators')
for n,f in ops.items():
    for v,e in zip(base,exp[n]):
        def fn():
            s=pd.Series([np.nan if x!=x else core.lift(float(x)) for x in v],index=ix,dtype=object)
            return f(s)
        try:
            core.reset(); rs=list(core.Ctx().explore(fn))
        except BaseException as x:
            print(n,'EXC',type(x).__name__,str(x)[:80]); break
        g=rs[0]
        gv=[np.nan if x is None else float(x) for x in g]
        if len(rs)!=1 or len(gv)!=len(e) or not np.allclose(gv,np.array(e,dtype=float),equal_nan=True) or list(g.index)!=list(e.index):
            print(n,'DIFF',v,gv,list(e)); break
