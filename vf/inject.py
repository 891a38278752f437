def replay(v): return None, 'interference counterexample (model level)'
