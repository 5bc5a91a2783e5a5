"""Verification level per property, used by mkmanifest.py."""
P = 'every obligation of every contract this property rests on is discharged for all inputs; also run on the real code as a cross-check'
PART = 'part of the property is discharged for all inputs (%s); the rest is covered by the bounded executable check only'
LEVELS = {
    'C01': ('proof', P),
    'C02': ('proof', P),
    'C03': ('proof', P),
    'C04': ('proof', P),
    'C20': ('proof', P),
    'C06': ('proof', P),
    'C05': ('proof', P),
    'C07': ('proof', P),
    'C08': ('proof', P),
    'C09': ('proof', P),
    'C10': ('proof', P),
    'C12': ('proof', P),
    'C22': ('other', PART % 'pairs of segmentations: window metrics, boundary and segmentation similarity, boundary statistics'),
    'C23': ('other', PART % 'all pairwise metrics and statistics'),
    'C24': ('other', PART % 'pairs of segmentations: window metrics, compute_window_size, boundary and segmentation similarity, boundary statistics'),
}
