NOTES = {
'S02': dict(reach='Preemption bound 1 for 2-3 threads, bound 2 for 2 threads; chunk splits 1..9 instants over 1..8 threads on the compiled kernel; engine histories of length 3.',
            limits='Interleavings are explored at line granularity of the kernel executed as Python; within the compiled kernel schedules are not controlled (only lengths x threads).'),
'S03': dict(limits='ephemeris() stops its Kepler iteration for the whole batch when the worst element converges, so batches differ from single calls by about 1e-6 degree; accepted as method accuracy.'),
'S04': dict(limits='The zone offset must be consistent with the longitude: for other zones the documentation does not fix which transit belongs to the local day. PyEphem raises in polar day/night (its documented behaviour).'),
'S05': dict(limits='Hour angles are compared modulo a full turn; a local midnight that happens twice is rejected by pandas and stays so.'),
'C01': dict(limits='Bird is missing where the airmass is; Solis has no closure by construction; Ineichen signs are asserted for turbidity >= 1.'),
'C02': dict(limits='LinkeTurbidities.h5 is not in the source tree; a synthetic file of the documented layout is used through the public filepath argument.'),
'D01': dict(limits='Louche gives no non-negativity guarantee for the diffuse part at zero clearness.'),
'D02': dict(limits='The forward chain is re-evaluated with scalar references; convergence failures are accepted only if no bracketing solution exists.'),
'V01': dict(limits='brentq does not bracket outside 0 <= V <= Voc, and Newton is required only for 0 <= I <= IL in v_from_i; the published method notes say the same.'),
'H01': dict(limits='conversion of SAPM/NOCT-SAM to the generic model is exact only at the fit points.'),
'K01': dict(limits='With the sun along the axis every rotation has the same incidence; excluded. Backtracking guarantee: sun above the row plane, limits not active.'),
'K02': dict(limits='direct_martinez is undefined at zero irradiance (0/0).'),
'B01': dict(limits='vf_row_ground uses a 0.5001 factor and finite row truncation; compared to the geometry within that truncation.'),
'B02': dict(limits='Ground-reflected part under row refinement is approximate in the published model itself (row segment midpoint view factors).'),
'M02': dict(limits='Fitting the physical model is a local (Powell) minimisation with two parameters; for unrealistic glazings (L of 50 mm, or n below 1.3 with L above 10 mm) it stops in another valley. Exact recovery is claimed and checked for realistic ones.'),
'F01': dict(limits='A fit may say that it failed (RuntimeError, convergence flag). Recovery is required from default or nearby starting points.'),
'I01': dict(limits='SRML files with 30-minute records are not among the provided types and are misread; not claimed.'),
'I02': dict(reach='One to four answers per dialogue; the polling clients (solaranywhere, era5) are run with virtual time until they end.'),
'I03': dict(limits='The CEC module table is not in this source tree; its case runs only when the file is there. Tables whose record names are all numbers are not claimed (pandas reads the names as integers).'),
'X03': dict(limits='An explicit temperature-model name must agree with the parameters; the rejected assignment leaves the attribute changed, which is recorded behaviour of the setter.'),
'Z03': dict(limits='Iterative solvers may differ within their tolerance. Functions whose definition looks at neighbours (DIRINT, wvm, detect_clearsky, transient models) are in their own properties.'),
'Z04': dict(limits='The table of documented defaults is written from signatures and docstrings of the pinned tree.'),
}
