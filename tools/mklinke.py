"""Writes dst/samples/linke.h5: turbidity tables for the simulated sites (the
table shipped with pvlib is not part of the repository)."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import h5py
import numpy as np
from dst import plant

with h5py.File(os.path.join(HERE, 'dst', 'samples', 'linke.h5'), 'w') as f:
    d = f.create_dataset('LinkeTurbidity', (2160, 4320, 12), 'u1',
                         chunks=(30, 30, 12), compression='gzip',
                         fillvalue=60, track_times=False)
    for k, (lat, lon, tz, alt) in enumerate(plant.LOCATIONS):
        r = int((90 - lat) * 12)
        c = int((lon + 180) * 12)
        for i in range(r - 2, r + 3):
            for j in range(c - 2, c + 3):
                d[i, j] = 45 + (7 * k + i + 2 * j + 3 * np.arange(12) ** 2
                                ) % 60
