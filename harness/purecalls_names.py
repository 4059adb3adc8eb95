NUMPY = ['sep', 'old', 'legacy', 'all', 'sep_fun', 'old_fun', 'legacy_fun', 'all_fun', 'weights', 'dist']
TORCH = ['torch', 'torch_fun', 'kernel', 'gradient']
ALL = NUMPY + TORCH
NP_BOXES = ['C', 'F', 'view', 'window']
TH_BOXES = ['C', 'tensor', 'view']
