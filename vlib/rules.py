RULES = {
    'P01': ('rule_text', 'p01'),
    'P02': ('rule_text', 'p02'),
    'P04': ('rule_refs', 'p04'),
    'P23': ('rule_schema', 'p23'), 'P09': ('rule_store', 'p09'),
    'P05': ('rule_load', 'p05'),
}
RULES['P12'] = ('rule_build', 'p12')
RULES['P07'] = ('rule_valid', 'p07')
RULES['P10'] = ('rule_builder', 'p10')
RULES['P11'] = ('rule_builder', 'p11')
RULES['P06'] = ('rule_panic', 'p06')
RULES['P17'] = ('rule_extract', 'p17')
RULES['P19'] = ('rule_pure', 'p19')
RULES['P15'] = ('rule_frame', 'p15')
RULES['P08'] = ('rule_views', 'p08')
RULES['P13'] = ('rule_ident', 'p13')
RULES['P16'] = ('rule_conv', 'p16')
RULES['P18'] = ('rule_space', 'p18')
