"""property -> (contracts module, replay driver)."""

AREAS = {
    'P01': ('lru', 'lru'),
    'P02': ('lru', 'lru'),
    'P03': ('lru', 'lru'),
    'P04': ('tracing', 'tracing'),
    'P05': ('tracing', 'tracing'),
    'P06': ('tqdm_area', 'tqdm_area'),
    'P07': ('tqdm_area', 'tqdm_area'),
    'P08': ('tqdm_area', 'tqdm_area'),
    'P09': ('tqdm_area', 'tqdm_area'),
    'P10': ('tqdm_area', 'tqdm_area'),
    'P11': ('util_area', 'util_area'),
    'P12': ('util_area', 'util_area'),
    'P13': ('util_area', 'util_area'),
    'P14': ('util_area', 'util_area'),
    'P15': ('paths', 'paths'),
    'P16': ('dbm', 'dbm'),
    'P17': ('dbm', 'dbm'),
    'P18': ('dbm', 'dbm'),
    'P19': ('dbm', 'dbm'),
    'P20': ('dbm', 'dbm'),
    'P21': ('dbm', 'dbm'),
    'P22': ('views', 'views'),
    'P23': ('views', 'views'),
    'P24': ('slices', 'slices'),
    'P25': ('slices', 'slices'),
    'P26': ('manager', 'slices'),
    'P27': ('manager', 'slices'),
    'P28': ('manager', 'slices'),
    'P29': ('mview', 'slices'),
}
