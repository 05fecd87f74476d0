from typing import List
from pathlib import Path

def is_empty(lst):
    for nl in lst:
        if len(nl) > 0:
            return False
    return True

def find_free_filename(file_path):
    op = Path(file_path)
    p = Path(file_path)
    suffix = p.suffix
    infix = 1
    while p.exists():
        p = op.with_name(f'{op.stem}_{infix}{suffix}')
        infix += 1
    return p
