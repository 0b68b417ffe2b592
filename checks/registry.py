"""property -> (module, function, level)."""
CHECKS = {}
for _m, _ids in (('env', 'P01 P02'), ('physics', 'P04 P05 P06 P07 P08 P09'), ('safety', 'P10 P11 P12 P13 P14'),
                 ('features', 'P15 P16'), ('env', 'P17 P18 P19 P20'), ('winds', 'P03 P21 P22 P23 P24 P25'),
                 ('utils', 'P26 P27 P28 P29'),
                 ('dynamics', 'P30 P31 P32 P33 P34 P35 P36'), ('agents', 'P37 P38 P39 P40 P41'),
                 ('runs', 'P42 P43 P44'), ('evals', 'P45 P46 P47'), ('programs', 'P48 P49 P50 P51 P52'), ('fields', 'P53 P54'),
                 ('references', 'P55'), ('lints', 'P56 P57'), ('simstate', 'P58 P59'),
                 ('learning', 'P60 P61 P62 P63'), ('physical', 'P64 P65 P66'), ('pretrained', 'P67')):
  for _i in _ids.split():
    CHECKS[_i] = (_m, _i.lower(), 'proof')
# Decided on finite families of runs (file names, episode lengths, schedules), each analysed for every value.
for _i in ('P34', 'P42', 'P43', 'P44', 'P45', 'P46', 'P47', 'P48', 'P50', 'P52', 'P53', 'P60', 'P61', 'P62', 'P63', 'P64', 'P67'):
  CHECKS[_i] = CHECKS[_i][:2] + ('exploration',)
