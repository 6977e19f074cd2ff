"""Which specification modules, drivers and configurations decide which property."""
LEVEL = {}
# mc: (module, cfg[, workers]) exhaustive configurations; drivers: (driver, trace module)
CHECKS = {
  'C01': dict(mc=[('MC_Idx', 'MC_Idx.cfg')], drivers=[('c01', 'TArr')]),
  'C02': dict(mc=[('MC_Sel', 'MC_Sel.cfg', 4)], drivers=[('c02', 'TArr')]),
  'C04': dict(mc=[('MC_Fun', 'MC_Fun.cfg', 4)], drivers=[('c04', 'TArr')]),
  'C06': dict(mc=[('MC_Red', 'MC_Red.cfg', 4)], drivers=[('c06', 'TArr')]),
  'C07': dict(mc=[('MC_Concat', 'MC_Concat.cfg', 4)], drivers=[('c07', 'TArr')]),
  'C14': dict(mc=[('MC_Map', 'MC_Map.cfg', 4)], drivers=[('c14', 'TAxis')]),
  'C03': dict(mc=[('MC_View', 'MC_View.cfg', 4)], mc_thorough=[('MC_View', 'MC_View_t.cfg', 8)], drivers=[('c03', 'TView')]),
  'C24': dict(mc=[('MC_View', 'MC_View.cfg', 4)], mc_thorough=[('MC_View', 'MC_View_t.cfg', 8)], drivers=[('c24', 'TView')]),
  'C25': dict(mc=[('MC_Stat', 'MC_Stat.cfg', 4)], mc_thorough=[('MC_Stat', 'MC_Stat_t.cfg', 8)], drivers=[('c25', 'TStat')]),
  'C05': dict(mc=[('MC_Restr', 'MC_Restr.cfg', 4)], drivers=[('c05', 'TArr')]),
  'C17': dict(mc=[('MC_Multi', 'MC_Multi.cfg', 4)], mc_thorough=[('MC_Multi', 'MC_Multi_t.cfg', 8)], drivers=[('c17', 'TMulti')]),
  'C19': dict(mc=[('MC_Calc', 'MC_Calc.cfg', 4)], mc_thorough=[('MC_Calc', 'MC_Calc_t.cfg', 8)], drivers=[('c19', 'TArr')]),
  'C20': dict(mc=[('MC_Interp', 'MC_Interp.cfg', 4)], mc_thorough=[('MC_Interp', 'MC_Interp_t.cfg', 8)], drivers=[('c20', 'TArr')]),
  'C21': dict(mc=[('MC_Comp', 'MC_Comp.cfg', 4)], mc_thorough=[('MC_Comp', 'MC_Comp_t.cfg', 8)], drivers=[('c21', 'TArr')]),
  'C08': dict(mc=[('MC_Cal', 'MC_Cal.cfg', 4)], mc_thorough=[('MC_Cal', 'MC_Cal_t.cfg', 8)], drivers=[('c08', 'TCal')]),
  'C09': dict(mc=[('MC_TAx', 'MC_TAx.cfg', 4)], mc_thorough=[('MC_TAx', 'MC_TAx_t.cfg', 8)], drivers=[('c09', 'TTime')]),
  'C10': dict(mc=[('MC_Bin', 'MC_Bin.cfg', 4)], mc_thorough=[('MC_Bin', 'MC_Bin_t.cfg', 8)], drivers=[('c10', 'TBin')]),
  'C11': dict(mc=[('MC_Heap', 'MC_Heap.cfg', 4)], mc_thorough=[('MC_Heap', 'MC_Heap_t.cfg', 8)], drivers=[('c11', 'THeap')]),
  'C12': dict(mc=[('MC_Dset', 'MC_Dset.cfg', 4)], mc_thorough=[('MC_Dset', 'MC_Dset_t.cfg', 8)], drivers=[('c12', 'TDset')]),
  'C13': dict(mc=[('MC_Meta', 'MC_Meta.cfg', 4)], mc_thorough=[('MC_Meta', 'MC_Meta_t.cfg', 8)], drivers=[('c13', 'TMeta')]),
  'C18': dict(mc=[('MC_Prog', 'MC_Prog.cfg', 4)], mc_thorough=[('MC_Prog', 'MC_Prog_t.cfg', 8)], drivers=[('c18', 'TProg')]),
  'C22': dict(mc=[('MC_Arr', 'MC_Arr.cfg', 4)], mc_thorough=[('MC_Arr', 'MC_Arr_t.cfg', 8)], drivers=[('c22', 'TArrange')]),
  'C23': dict(mc=[('MC_Xr', 'MC_Xr.cfg', 4)], mc_thorough=[('MC_Xr', 'MC_Xr_t.cfg', 8)], drivers=[('c23', 'TXr')]),
  'C15': dict(mc=[('MC_Store', 'MC_Store.cfg', 4)], mc_thorough=[('MC_Store', 'MC_Store_t.cfg', 8)], drivers=[('c15', 'TStore')]),
  'C16': dict(mc=[('MC_Store', 'MC_Store.cfg', 4)], mc_thorough=[('MC_Store', 'MC_Store_t.cfg', 8)], drivers=[('c16', 'TStore')]),
  'C26': dict(mc=[('MC_Cal', 'MC_Cal.cfg', 4)], mc_thorough=[('MC_Cal', 'MC_Cal_t.cfg', 8)], drivers=[('c26', 'TCal')]),
  'C27': dict(mc=[('MC_Tick', 'MC_Tick.cfg', 4)], mc_thorough=[('MC_Tick', 'MC_Tick_t.cfg', 8)], drivers=[('c27', 'TTick')]),
  'C29': dict(mc=[('MC_Plot', 'MC_Plot.cfg', 4)], mc_thorough=[('MC_Plot', 'MC_Plot_t.cfg', 8)], drivers=[('c29', 'TPlot')]),
}
NOT_APPLICABLE = {
  'C28': 'Iterative floating-point eigen/singular-value solvers and FFTs: the guarantee is numerical accuracy of irrational results, not a state-transition property; TLA+ has no reals and the decomposition cannot be written over exact rationals.',
}
