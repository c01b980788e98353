"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d['anchors']['hook_needed'] = None
    P.append(d)

p('S01', 'Solar position equals the NREL solar position algorithm everywhere',
  "For every instant, site (latitude, longitude, altitude) and atmosphere (pressure, temperature, delta-T, refraction), the default solar position equals the published NREL SPA: true and apparent (refracted) zenith and elevation, azimuth in [0, 360) measured east of north, and the equation of time. Zenith is always 90 degrees minus elevation, the true position never depends on pressure or temperature, and refraction is applied only while the sun's upper limb can be above the refracted horizon. The Earth-sun distance reported for an instant is the SPA heliocentric radius.",
  ['inputs'], 'all instants x sites x atmospheres: the lattice crosses hemispheres, poles, the date line, both sides of the horizon, leap days and several centuries',
  'Unit tests compare a few published points (one day in Golden, Colorado); the trigonometric quadrants, poles, date line, leap days, refraction switch and old/future years are unvisited.',
  ['pvlib/spa.py', 'pvlib/solarposition.py'],
  [('spa.solar_position_numpy/loop', 'pvlib/spa.py'), ('spa_python', 'pvlib/solarposition.py'), ('get_solarposition', 'pvlib/solarposition.py')])
p('S02', 'Solar position is independent of engine, threads, batching and history',
  "The same instants at the same site give the same solar position whichever calculation engine (interpreted or compiled, any number of threads) computes them, whatever sequence of engine switches or calls came before, and however the instants are batched, ordered, repeated or expressed in a time zone (naive times mean UTC). Outputs keep exactly the requested index, one row per requested time, in order.",
  ['histories', 'schedules', 'inputs'], 'all sequences of engine selections and calls up to a bound; all chunk splits of 1..9 instants over 1..8 threads; all permutations/partitions of a small batch; all time-zone representations in the alphabet',
  'Tests compile each engine once on one batch size; they never interleave engine switches, never split a batch unevenly over threads and never compare permutations.',
  ['pvlib/spa.py', 'pvlib/solarposition.py'],
  [('_spa_python_import module reload', 'pvlib/solarposition.py'), ('solar_position_numba thread chunking', 'pvlib/spa.py'), ('jcompile/USE_NUMBA', 'pvlib/spa.py')],
  state=[('USE_NUMBA / PVLIB_USE_NUMBA', 'process-wide engine selection', 'pvlib/spa.py'), ('loc_args/out arrays', 'buffers shared between threads', 'pvlib/spa.py')])
p('S03', 'All solar position methods and analytical formulas agree',
  "Every selectable solar position method (NREL SPA in either engine, the ephemeris algorithm, PyEphem) returns the same sun: true zenith, azimuth and refracted elevation agree within each method's accuracy at every site and instant, and the method name selects the method. The closed-form declination, equation-of-time, zenith and azimuth formulas equal their published equations and agree with the SPA to within their stated accuracy on every day of the year; searching for the time at which the sun reaches a given altitude or azimuth returns a time inside the window at which it does.",
  ['inputs', 'configurations'], 'all methods x instants x sites in the lattice; all 366 days of a year for the closed-form formulas',
  'Tests check one or two instants per method; consistency between methods over the year, hemispheres and pressures is never compared.',
  ['pvlib/solarposition.py'],
  [('ephemeris / pyephem / get_solarposition dispatch', 'pvlib/solarposition.py'), ('declination_*/equation_of_time_*/solar_zenith_analytical/solar_azimuth_analytical', 'pvlib/solarposition.py'), ('calc_time', 'pvlib/solarposition.py')])
p('S04', 'Sunrise, transit and sunset belong to the requested local day',
  "For every calendar day requested in any fixed-offset time zone and at any site, the computed sunrise and sunset are instants on that local day at which the sun's centre is at the conventional horizon altitude, sunrise with the sun rising in the east before transit and sunset falling after it, and transit is the instant of the day's highest sun (for zones whose offset is consistent with the site's longitude; sunrise and sunset are the two events adjacent to that transit). Where the sun stays up or down all day the two events are reported as missing while transit is still given; every implementation (SPA, PyEphem, geometric; PyEphem raises in polar day or night) agrees on the events within its stated accuracy and returns times in the caller's time zone and index.",
  ['inputs', 'configurations'], 'all days in the alphabet (equinoxes, solstices, leap day, year ends) x time zones x longitudes consistent with the zone x latitudes up to the poles x methods',
  'Tests check Golden and Singapore on two dates; polar day/night, days just at the threshold, sites far from Greenwich and all 366 days are not enumerated.',
  ['pvlib/solarposition.py', 'pvlib/spa.py', 'pvlib/location.py'],
  [('transit_sunrise_sunset', 'pvlib/spa.py'), ('sun_rise_set_transit_spa/_ephem/_geometric', 'pvlib/solarposition.py'), ('Location.get_sun_rise_set_transit', 'pvlib/location.py')])
p('S05', 'Hour angle and local solar time follow the instant, not the clock',
  "The hour angle at an instant and longitude is 15 degrees per hour of apparent solar time from solar noon: it depends only on the instant, the longitude and the equation of time, and is identical, modulo a full turn, for every time-zone representation of that instant, including daylight-saving zones and the days on which the clocks change. Converting hour angles to local times is the inverse of that map, and truncating or scaling times to hours after local midnight measures elapsed time; a local midnight that occurs twice is rejected.",
  ['inputs'], 'all instants over clock-change days and ordinary days x time-zone representations x longitudes',
  'Tests use ordinary days plus one zone whose midnight does not exist; they never compare representations of one instant or later hours of a clock-change day.',
  ['pvlib/solarposition.py'],
  [('hour_angle', 'pvlib/solarposition.py'), ('_times_to_hours_after_local_midnight / _local_times_from_hours_since_midnight / _hour_angle_to_hours', 'pvlib/solarposition.py')])
p('A01', 'Extraterrestrial irradiance depends only on the date and method',
  "For every day or instant, given as a day number, date, timestamp, or index in any form, the extraterrestrial normal irradiance equals the solar constant times the squared inverse relative Earth-sun distance of the chosen published method, scales linearly with the solar constant, and comes back in the same form (scalar or indexed series) as the input. Every method stays within the physical annual range, and an unknown method is rejected.",
  ['inputs', 'configurations'], 'all days 1..366 x input representations x methods x solar constants; leap years and time zones',
  'Tests check one timestamp per input type.',
  ['pvlib/irradiance.py', 'pvlib/solarposition.py', 'pvlib/tools.py'],
  [('get_extra_radiation and _handle_extra_radiation_types', 'pvlib/irradiance.py'), ('nrel_earthsun_distance / pyephem_earthsun_distance', 'pvlib/solarposition.py')])
p('A02', 'Atmosphere relations: airmass, pressure, moisture, turbidity, wind',
  "At every zenith, altitude, pressure, temperature and humidity in range, the atmospheric relations equal their published equations: relative airmass (every model; missing below the horizon, about 1 at zenith, increasing with zenith), absolute airmass, altitude and pressure as mutual inverses, precipitable water, dew point and relative humidity as mutual inverses, Angstrom exponent and optical depth at a wavelength as mutual inverses, broadband optical depth, Linke turbidity and wind speed at height. Missing inputs give missing outputs without disturbing other elements.",
  ['inputs'], 'the lattice of zenith angles (including 0, 90, below horizon, missing), pressures, altitudes, temperatures, humidities, wavelengths, models',
  'Tests use short hand-picked vectors per function; inverse pairs, edges and dtype/shape variants are not enumerated.',
  ['pvlib/atmosphere.py'],
  [('get_relative_airmass/get_absolute_airmass/pres2alt/alt2pres', 'pvlib/atmosphere.py'), ('gueymard94_pw, tdew_from_rh, rh_from_tdew, angstrom_*, kasten96_lt, bird_hulstrom80_aod_bb, windspeed_powerlaw', 'pvlib/atmosphere.py')])
p('C01', 'Clear-sky models: closed, non-negative, dark at night, per equations',
  "For every sun position and atmosphere the clear-sky models equal their published equations; beam, diffuse and global components are non-negative over the validity range of the model (turbidity from 1, zenith up to about 88 degrees for the diffuse part), satisfy global = diffuse + beam x cos(zenith) where the model defines all three that way (Ineichen, Bird), and are zero (or missing, where the airmass is) when the sun is below the horizon. Scalars, integer or float arrays and indexed series give the same values.",
  ['inputs'], 'the lattice of zenith, airmass, turbidity, altitude, aerosol, water vapour, pressure and extraterrestrial irradiance values, in every input form',
  'Tests compare a few stored values at one site; closure, night edges, perez enhancement and integer inputs are not enumerated.',
  ['pvlib/clearsky.py', 'pvlib/location.py'],
  [('ineichen, haurwitz, simplified_solis, bird', 'pvlib/clearsky.py'), ('Location.get_clearsky', 'pvlib/location.py')])
p('C02', 'Linke turbidity lookup reads the right grid cell, month and day',
  "For every location and time the climatological Linke turbidity is the value of the gridded data set's cell that contains the location (longitude west to east, latitude north to south, edges included), for the calendar month without interpolation, or linearly interpolated between mid-month days with year wrap-around and leap-year day lengths; month and day are those of the UTC calendar. The result has one finite value per requested time, scaled by the stored factor.",
  ['inputs'], 'all cells of a synthetic data set x both interpolation modes x all days of leap and common years x mixed-year indexes',
  'The data set is not in the source tree here, so no stable test reaches this code; upstream tests look at one place.',
  ['pvlib/clearsky.py', 'pvlib/tools.py'],
  [('lookup_linke_turbidity, _interpolate_turbidity, _calendar_month_middles', 'pvlib/clearsky.py'), ('_degrees_to_index', 'pvlib/tools.py')])
p('C03', 'Clear-period detection applies the window criteria to every window',
  "A sample is flagged clear exactly when it lies in at least one sliding window for which all five statistical criteria (mean, maximum, line length, slope deviation, maximum slope difference) hold between the measured and the scaled clear-sky series, with the scaling found by the documented fixed-point iteration. The result is positionally aligned with the input, the same for array and indexed inputs and for any sample interval consistent with the window, and undefined or unequally spaced inputs are rejected.",
  ['inputs', 'histories'], 'all measurement histories over a small irradiance alphabet up to the bound, x window lengths x thresholds x sample intervals',
  'Tests run one stored day with default thresholds.',
  ['pvlib/clearsky.py', 'pvlib/tools.py'],
  [('detect_clearsky, _calc_c5, _clear_sample_index, _calc_stats', 'pvlib/clearsky.py'), ('_get_sample_intervals', 'pvlib/tools.py')])
p('G01', 'Angle-of-incidence geometry and surface projections',
  "For every surface orientation and sun position the angle of incidence is the true angle between the surface normal and the sun vector, its projection is the cosine (clipped to [-1, 1]), and the beam component on the plane is never negative and zero when the sun is behind the plane. The ratio of plane to horizontal projection used by the sky models, ground-reflected irradiance (view factor (1 - cos tilt)/2, named surface albedos) and inland-water albedo follow their published equations for every angle.",
  ['inputs'], 'the lattice of tilts 0..180, azimuths around the circle, zeniths 0..180, named surfaces, input forms',
  'Tests use a handful of orientations; behind-plane, overhanging and wrap-around azimuths are not enumerated.',
  ['pvlib/irradiance.py', 'pvlib/albedo.py'],
  [('aoi, aoi_projection, beam_component, get_ground_diffuse, haydavies projection ratio', 'pvlib/irradiance.py'), ('inland_water_dvoracek', 'pvlib/albedo.py')])
p('T01', 'Sky-diffuse transposition models follow their equations and stay physical',
  "For every orientation, sun position and irradiance, each sky-diffuse model (isotropic, Klucher, Hay-Davies, Reindl, King, Perez with every coefficient set, Perez-Driesse) equals its published equation, is non-negative for orientations up to vertical, and on a horizontal surface returns the horizontal diffuse irradiance for the models that guarantee it. When components are requested they are returned under their names and sum to the total at every element, including night, missing airmass and clipped cases.",
  ['inputs', 'configurations'], 'the lattice tilt x azimuth x zenith x azimuth x dhi x dni (incl. 0, missing, low sun, below horizon) x models x coefficient sets x input forms',
  'Tests evaluate four sky conditions at one orientation; sky-clearness bins, component masks and low-sun limits are not enumerated.',
  ['pvlib/irradiance.py'],
  [('isotropic, klucher, haydavies, reindl, king, perez, perez_driesse, _get_perez_coefficients, _f', 'pvlib/irradiance.py')])
p('T02', 'Total plane-of-array irradiance is the sum of its parts',
  "For every orientation, sun position, irradiance and selectable model, plane-of-array irradiance satisfies global = direct + diffuse and diffuse = sky diffuse + ground diffuse, the direct part is beam x max(cos incidence, 0), and the sky part is exactly the selected model's value with the documented defaults for extraterrestrial irradiance and airmass. Unknown models, or models missing a required input, are rejected; the closure relation global = diffuse + beam x cos(zenith) is completed correctly for whichever component is missing.",
  ['inputs', 'configurations'], 'all models x optional-argument presence combinations x lattice x input forms',
  'Tests call each model once; combinations of optional arguments, containers and missing component completions are not crossed.',
  ['pvlib/irradiance.py'],
  [('get_total_irradiance, get_sky_diffuse, poa_components, complete_irradiance', 'pvlib/irradiance.py')])
p('D01', 'Decomposition of global irradiance closes and stays in range',
  "For every global irradiance, sun position and time, each decomposition model (DISC, DIRINT, DIRINDEX, Erbs, Erbs-Driesse, Orgill-Hollands, Boland, Louche, Campbell-Norman and the DNI closure) equals its published equations; beam and (where the model bounds it) diffuse are non-negative, beam is zero at night and beyond the zenith limit, and the models that return all components satisfy global = diffuse + beam x cos(zenith). Clearness and clear-sky indices are within their documented limits.",
  ['inputs', 'histories'], 'the lattice ghi x zenith x day-of-year x pressure x limits; all short time series over a small alphabet for the models that look at neighbouring samples',
  'Tests compare single days of stored output; bin edges, low sun, missing neighbours and time-dependence are not enumerated.',
  ['pvlib/irradiance.py'],
  [('disc, dirint, dirindex, erbs, erbs_driesse, orgill_hollands, boland, louche, campbell_norman, dni, clearness_index, clearsky_index', 'pvlib/irradiance.py')])
p('D02', 'Reverse transposition recovers horizontal irradiance from plane irradiance',
  "For every orientation, sun position and plane-of-array irradiance, the reverse-transposition solver returns a global horizontal irradiance that, decomposed and transposed again with the forward models it names, reproduces the plane-of-array input to its tolerance whenever it reports convergence, and reports failure otherwise. The iterative GTI decomposition returns non-negative, closed components aligned with the input, following its documented iteration and its separate treatment beyond 90 degrees incidence.",
  ['inputs', 'histories'], 'lattice of orientations x sun positions x irradiances; short series around the 90-degree incidence change-over',
  'Tests check single stored values.',
  ['pvlib/irradiance.py'],
  [('ghi_from_poa_driesse_2024', 'pvlib/irradiance.py'), ('gti_dirint, _gti_dirint_lt_90, _gti_dirint_gte_90', 'pvlib/irradiance.py')])
p('V01', 'Single-diode solutions satisfy the diode equation and all solvers agree',
  "For every physical set of single-diode parameters, the returned current, voltage and power satisfy the implicit diode equation; current-from-voltage and voltage-from-current are mutual inverses; the maximum-power point beats every other point of the curve; and 0 <= Vmp <= Voc, 0 <= Imp <= Isc. Every solver (explicit Lambert-W and each numerical method; bracketing solvers between 0 and Voc, Newton's voltage for currents between 0 and IL) gives the same points within tolerance, in the shape and container of the inputs, including zero photocurrent, zero series resistance, infinite shunt resistance and integer inputs; recombination and reverse-breakdown terms enter as published.",
  ['inputs', 'configurations'], 'the lattice photocurrent x saturation current x Rs x Rsh x nNsVth (incl. ideal-device limits) x solvers x input forms',
  'Tests solve a few modules; degenerate limits, mixed shapes and dtype variants and agreement of all solvers are not crossed.',
  ['pvlib/singlediode.py', 'pvlib/pvsystem.py'],
  [('bishop88*, _lambertw*', 'pvlib/singlediode.py'), ('singlediode, max_power_point, v_from_i, i_from_v', 'pvlib/pvsystem.py')])
p('V02', 'Module parameters translate to operating conditions per the published model',
  "For every irradiance and cell temperature, the De Soto, CEC and PVsyst parameter translations equal their published equations, reproduce the reference parameters at reference conditions, and give zero photocurrent and unbounded shunt resistance (De Soto) in the dark. The simplified explicit model built on them returns ordered, non-negative points, and all outputs keep the shape and index of the inputs.",
  ['inputs'], 'the lattice irradiance x temperature x module parameters x reference conditions x input forms',
  'Tests check one or two operating points per model.',
  ['pvlib/pvsystem.py', 'pvlib/pvarray.py'],
  [('calcparams_desoto/cec/pvsyst, _pvsyst_*', 'pvlib/pvsystem.py'), ('batzelis', 'pvlib/pvarray.py')])
p('V03', 'Explicit DC performance and loss models follow their equations',
  "For every irradiance and temperature, the explicit DC models (PVWatts, SAPM and its effective irradiance, ADR efficiency, Huld) and loss models (PVWatts loss stack, DC ohmic losses, combined losses, electrical mismatch) equal their published equations, are linear or monotone where those equations are, give zero output in the dark and scale exactly with the number of modules per string and strings.",
  ['inputs'], 'the lattice irradiance x temperature x coefficient sets x strings x modules x input forms',
  'Tests check isolated values per function.',
  ['pvlib/pvsystem.py', 'pvlib/pvarray.py', 'pvlib/bifacial/loss_models.py'],
  [('pvwatts_dc, sapm, sapm_effective_irradiance, pvwatts_losses, dc_ohms_from_percent, dc_ohmic_losses, combine_loss_factors, scale_voltage_current_power', 'pvlib/pvsystem.py'), ('pvefficiency_adr, huld', 'pvlib/pvarray.py'), ('power_mismatch_deline', 'pvlib/bifacial/loss_models.py')])
p('N01', 'Inverter and transformer models convert power within their limits',
  "For every DC power and voltage, the Sandia, ADR and PVWatts inverter models equal their published equations: AC power never exceeds the rating, equals the (negative) night consumption below the start-up threshold, never exceeds the DC power supplied, and is missing or clipped outside the voltage and power limits as documented. Multi-input inverters combine inputs in proportion to power and reduce to the single-input result for one input or equal inputs; parameter fitting recovers the parameters of synthetic measurements; the transformer model's output solves its loss balance and never exceeds its input.",
  ['inputs'], 'the lattice pdc x vdc x inverter parameter sets x number of inputs x input forms',
  'Tests check single rows per inverter; thresholds, clipping order, multi-input combinations and fits are not enumerated.',
  ['pvlib/inverter.py', 'pvlib/transformer.py'],
  [('sandia, sandia_multi, adr, pvwatts, pvwatts_multi, fit_sandia', 'pvlib/inverter.py'), ('simple_efficiency', 'pvlib/transformer.py')])
p('M01', 'Incidence-angle modifiers are normalised, bounded and per equation',
  "For every angle of incidence and parameter set each direct incidence-angle modifier equals its published equation, is 1 at normal incidence, lies in [0, 1] (where the model guarantees it), does not increase with angle where the physics says so, is even in the angle where the model defines negative angles (SAPM gives 0 there), and is 0 when light arrives from behind (beyond 90 degrees) for the models that define it. Missing angles give missing values and scalars, arrays and series agree.",
  ['inputs'], 'all angles on a fine grid over [-180, 180] incl. +-90 x parameter sets x input forms',
  'Tests use about ten angles and one parameter set per model.',
  ['pvlib/iam.py'],
  [('ashrae, physical, martin_ruiz, interp, sapm, schlick', 'pvlib/iam.py')])
p('M02', 'Diffuse incidence modifiers integrate the direct ones; conversions fit',
  "For every tilt, the diffuse incidence-angle modifiers equal the solid-angle integral of the corresponding direct modifier over the visible sky, horizon or ground (or their published closed forms), lie in [0, 1], and agree for every implementation and input form. Converting or fitting one modifier model to another returns parameters whose curve approximates the source curve at the weighted residual minimum, and exactly when the measurements come from the target model itself with the parameters of a realistic glazing.",
  ['inputs', 'configurations'], 'all tilts 0..180 on a grid x regions x models x integration resolutions; all ordered pairs of fit/convert models',
  'Tests use three tilts and stored numbers.',
  ['pvlib/iam.py'],
  [('marion_diffuse, marion_integrate, martin_ruiz_diffuse, schlick_diffuse', 'pvlib/iam.py'), ('convert, fit', 'pvlib/iam.py')])
p('H01', 'Steady-state cell temperature models follow their heat balance',
  "For every irradiance, air temperature and wind speed, each steady-state module/cell temperature model (SAPM, PVsyst, Faiman with and without sky radiation, Ross, NOCT-SAM, generic linear) equals its published equation, equals air temperature in the dark (except the radiative one), rises with irradiance and falls with wind. Converting the generic linear model to and from any other model's parameters, in any sequence, preserves the predicted temperatures (exactly for Faiman, PVsyst and the generic form; at the fitted wind speeds for SAPM and at the reference wind for NOCT-SAM).",
  ['inputs', 'histories'], 'the lattice irradiance x temperature x wind x parameters (incl. NOCT-SAM standoff/array-height tables) x input forms; all conversion sequences up to the bound',
  'Tests check single values; conversion chains and table edges are not enumerated.',
  ['pvlib/temperature.py'],
  [('sapm_module, sapm_cell, sapm_cell_from_module, pvsyst_cell, faiman, faiman_rad, ross, noct_sam, generic_linear', 'pvlib/temperature.py'), ('GenericLinearModel', 'pvlib/temperature.py')])
p('H02', 'Transient temperature models carry the right state between samples',
  "For every time series, the transient models advance their state by their published step rule: the Fuentes model integrates its heat balance from each sample to the next over the actual elapsed time, and the Prilliman model is the documented weighted average of the preceding window of samples. Outputs are aligned with the input, a steady input converges to the steady state, and later samples never influence earlier results.",
  ['histories'], 'all series over a small alphabet of irradiance/temperature/wind up to the bound x sampling intervals x model options',
  'Tests compare one stored TMY run and one step response; short histories, gaps and interval changes are not enumerated.',
  ['pvlib/temperature.py', 'pvlib/tools.py'],
  [('fuentes, _fuentes_hconv, _hydraulic_diameter', 'pvlib/temperature.py'), ('prilliman', 'pvlib/temperature.py')])
p('K01', 'Single-axis trackers point at the sun, obey limits and never self-shade',
  "For every sun position, axis orientation, ground-cover ratio and cross-axis slope, the tracker rotation without backtracking minimises the angle of incidence subject to the rotation limits (symmetric or separate), and with backtracking, while the sun is above the plane of the rows and no limit is active, the rows do not shade one another while staying as close to true-tracking as possible; rotation, incidence, surface tilt and surface azimuth describe one and the same plane. When the sun is below the horizon all outputs are missing, and the slope helper functions are consistent with the terrain geometry.",
  ['inputs', 'configurations'], 'the lattice zenith x azimuth x axis tilt x axis azimuth x max angle x gcr x cross-axis tilt x backtrack x input forms',
  'Tests check a handful of positions; slopes, limits and backtracking are not crossed.',
  ['pvlib/tracking.py', 'pvlib/shading.py', 'pvlib/pvsystem.py'],
  [('singleaxis, calc_surface_orientation, calc_axis_tilt, calc_cross_axis_tilt', 'pvlib/tracking.py'), ('SingleAxisTrackerMount.get_orientation', 'pvlib/pvsystem.py')])
p('K02', 'Row shading geometry equals projected-shadow geometry',
  "For every row geometry and sun position, the projected solar zenith, shaded fraction between rows (with unequal rotations, widths offset and cross-axis slope), masking angles, sky-diffuse masking loss and ground angle equal the planar shadow geometry that defines them (for the shaded fraction, where the shadow reaches beyond the lower edge of the row); fractions lie in [0, 1] and shading is 0 whenever no shadow reaches the row. The shading power-loss model equals its published block equation for every shaded fraction.",
  ['inputs'], 'the lattice of geometries x sun positions x input forms',
  'Tests use a few published examples.',
  ['pvlib/shading.py'],
  [('projected_solar_zenith_angle, shaded_fraction1d, masking_angle, masking_angle_passias, sky_diffuse_passias, ground_angle, direct_martinez', 'pvlib/shading.py')])
p('B01', 'Bifacial infinite-sheds irradiance closes and uses valid view factors',
  "For every row geometry, sun position and irradiance, the infinite-sheds model's view factors lie in [0, 1] and equal the two-dimensional geometric view factors, ground shading equals the projected shadow, every returned global equals direct + diffuse and diffuse equals sky + ground for both faces, and the combined result is front + rear x bifaciality x (1 - shade/transmission losses). Widely spaced rows converge to the single isolated plane.",
  ['inputs', 'configurations'], 'the lattice tilt x azimuth x sun x gcr x height x pitch x albedo x models x loss factors x input forms',
  'Tests check a few geometries with stored values.',
  ['pvlib/bifacial/infinite_sheds.py', 'pvlib/bifacial/utils.py'],
  [('get_irradiance, get_irradiance_poa', 'pvlib/bifacial/infinite_sheds.py'), ('vf_ground_sky_2d(_integ), vf_row_sky_2d(_integ), vf_row_ground_2d(_integ), _unshaded_ground_fraction, _solar_projection_tangent', 'pvlib/bifacial/utils.py')])
p('B02', 'Two-dimensional ANTS bifacial model closes over rows and ground segments',
  "For every tracker rotation, sun position, slope and segmentation, the two-dimensional bifacial model's front and rear outputs satisfy global = direct + diffuse = direct + sky + ground, shaded fractions lie in [0, 1], refining the row segmentation averages back to the unsegmented direct, sky and shaded values (the ground part approximately), and flat-ground results do not depend on which equivalent description (array, series, scalar) is used. Rotating the whole scene gives the same result; mirroring it east-west gives the mirrored direct, sky and shading result.",
  ['inputs', 'configurations'], 'the lattice rotation x sun x gcr x height x segments x slopes x sky models x input forms',
  'Tests check a few stored configurations.',
  ['pvlib/bifacial/ants2d.py', 'pvlib/bifacial/utils.py'],
  [('get_irradiance, _ants2d_singleside, _shaded_fraction, _apply_sky_diffuse_model, _apply_ground_slope', 'pvlib/bifacial/ants2d.py')])
p('W01', 'Snow coverage and loss follow the sliding state machine',
  "For every history of snowfall, plane irradiance, temperature and tilt, row coverage follows the NREL sliding rules step by step: fresh snow above the hourly threshold covers fully, snow slides by the documented amount only when the melt condition holds, coverage stays in [0, 1], never increases without new snow, and missing values hold as documented. DC loss from coverage and the Townsend monthly loss equal their published equations and stay in [0, 1].",
  ['histories', 'inputs'], 'all event histories over a small snowfall/irradiance/temperature alphabet up to the bound x sampling intervals x initial coverage; lattice for the loss equations',
  'Tests run a few hand-written series.',
  ['pvlib/snow.py'],
  [('coverage_nrel, fully_covered_nrel, _time_delta_in_hours, dc_loss_nrel', 'pvlib/snow.py'), ('loss_townsend, _townsend_effective_snow', 'pvlib/snow.py')])
p('W02', 'Soiling accumulates and is washed off exactly per the rules',
  "For every rain, particulate and cleaning history, the Kimber model's soiling grows at its daily rate, resets to zero when accumulated rain over the window exceeds the threshold or at a manual wash, stays clean through the grace period and never exceeds its maximum; the HSU model's soiling ratio is the published function of particulate mass accumulated since the last cleaning rain. Outputs are aligned with the rain series and lie in their documented range.",
  ['histories'], 'all rain/wash histories over a small alphabet up to the bound x thresholds x windows x sampling intervals',
  'Tests replay two stored series.',
  ['pvlib/soiling.py'],
  [('kimber', 'pvlib/soiling.py'), ('hsu, _gt_cleaning accumulation', 'pvlib/soiling.py')])
p('Q01', 'Spectral models follow their equations and invert each other',
  "For every airmass, water vapour, aerosol and clearness value, each spectral mismatch model equals its published equation with the documented clipping and coefficient selection, quantum efficiency and spectral response conversions are mutual inverses, average photon energy and spectral mismatch are invariant to scaling of the spectrum, and the simple spectral irradiance model yields, for the sun above the horizon, non-negative spectra whose tilted components sum to the total. Ambiguous or missing coefficient choices are rejected.",
  ['inputs', 'configurations'], 'the lattice of atmosphere values x module types/coefficients x input forms x input-validation combinations',
  'Tests check short vectors for each module type.',
  ['pvlib/spectrum/mismatch.py', 'pvlib/spectrum/response.py', 'pvlib/spectrum/irradiance.py', 'pvlib/spectrum/spectrl2.py'],
  [('spectral_factor_*', 'pvlib/spectrum/mismatch.py'), ('sr_to_qe, qe_to_sr', 'pvlib/spectrum/response.py'), ('average_photon_energy, get_reference_spectra', 'pvlib/spectrum/irradiance.py'), ('spectrl2', 'pvlib/spectrum/spectrl2.py')])
p('X01', 'A model chain result equals the manual composition of its models',
  "For every combination of selectable models, array count and mount, the results of a model-chain run (solar position, airmass, incidence angle, total and effective irradiance, cell temperature, DC and AC power) equal what the caller gets by invoking the selected component functions by hand with the system's parameters, whichever of the three entry points (weather, plane-of-array, effective irradiance) the data enter through. Outputs carry the weather index, one result per array (weather shared by all arrays is stored once; the constant losses factor multiplies every DC column), and the inputs and the system are left unmodified.",
  ['configurations', 'inputs'], 'the product of AOI, spectral, temperature, DC, AC and loss models x array counts x mounts x entry points over a small weather alphabet (night, low sun, clear, cloudy, missing)',
  'Tests mock most calls and run few combinations end to end.',
  ['pvlib/modelchain.py', 'pvlib/pvsystem.py'],
  [('ModelChain.run_model*, prepare_inputs*', 'pvlib/modelchain.py')])
p('X02', 'Model-chain runs are history independent',
  "For every sequence of runs on one model chain object - different weather, entry points, array data layouts or failed runs in between - each completed run's results equal those of a fresh chain given the same data, running twice gives identical results, and neither caller data nor the system description is changed. Data that violate the input contract (wrong number of arrays, mismatched indexes, missing columns) are rejected.",
  ['histories'], 'all sequences of run operations up to the bound over a small set of inputs, including rejected ones',
  'Tests run each chain once.',
  ['pvlib/modelchain.py'],
  [('ModelChain.results, _assign_weather, _assign_times, _verify_df, _check_multiple_input', 'pvlib/modelchain.py')],
  state=[('ModelChainResult', 'results carried on the chain object', 'pvlib/modelchain.py')])
p('X03', 'Model selection infers exactly the model the parameters describe',
  "For every subset of parameter families present on the arrays and inverter, each model slot selects the documented model for that family in the documented precedence, explicit names and user functions override inference (an explicit temperature model must agree with the parameters), model names are accepted case-insensitively, and anything not determined or not recognised is rejected with an error rather than silently defaulted.",
  ['configurations'], 'all subsets of parameter families per slot x one or two arrays (agreeing or not) x all names, near-miss names and functions',
  'Tests cover the named cases one by one.',
  ['pvlib/modelchain.py'],
  [('dc_model/ac_model/aoi_model/spectral_model/temperature_model/dc_ohmic_model/losses_model setters and infer_*', 'pvlib/modelchain.py'), ('_get_*_params', 'pvlib/pvsystem.py')])
p('X04', 'A multi-array system behaves as its arrays taken separately',
  "For every number of arrays and every per-array or shared argument, each system operation returns, per array and in order, exactly what that array alone would return with its own mount, parameters and data; shared data are used for all, the wrong number of per-array inputs is rejected, single-array systems return bare values unless told otherwise, and string and module counts scale voltage, current and power exactly. Operations never modify the arrays' parameters.",
  ['configurations', 'inputs'], 'all operations x 1..3 arrays with pairwise different parameters x shared/per-array argument forms x unwrap modes',
  'Tests check selected operations with mostly identical arrays.',
  ['pvlib/pvsystem.py'],
  [('PVSystem._validate_per_array, _unwrap_single_value', 'pvlib/pvsystem.py'), ('Array.*, FixedMount, SingleAxisTrackerMount', 'pvlib/pvsystem.py')])
p('L01', 'A location keeps its coordinates, zone and altitude consistent',
  "For every accepted time-zone form (name, fixed offset in hours, tzinfo object) and every later reassignment, a location's zone name and zone object denote the same zone and invalid values are rejected leaving no half-set state; altitude given or looked up is used consistently, and everything a location computes (solar position, airmass, clear sky, sunrise) equals the component function called with its coordinates. Building a location from weather-file metadata reproduces the file's coordinates, zone and altitude.",
  ['histories', 'inputs'], 'all sequences of zone assignments (valid and invalid) up to the bound; all accepted forms; altitude grid cells and edges; metadata variants',
  'Tests construct a few locations and one sequence of assignments.',
  ['pvlib/location.py'],
  [('Location.tz/pytz setter, from_tmy, from_epw, get_solarposition, get_airmass, get_clearsky, get_sun_rise_set_transit', 'pvlib/location.py'), ('lookup_altitude', 'pvlib/location.py')])
p('I01', 'Weather-file readers return every record at its true time and unit',
  "For every well-formed file of each supported format, the reader returns one row per record, in file order, stamped with the instant that the record's own date, hour, zone and labelling convention denote (year ends, leap days and hour 24 included), with missing-value codes turned into missing values, units converted and names mapped exactly as documented - or left raw when mapping is declined - and site metadata parsed to the right signs and types. Reading from a path or an open buffer gives the same result.",
  ['inputs'], 'synthetic files enumerating dates, hours, zones, missing codes, column subsets and metadata signs for each format',
  'Tests read one sample file per format.',
  ['pvlib/iotools/tmy.py', 'pvlib/iotools/epw.py', 'pvlib/iotools/srml.py', 'pvlib/iotools/surfrad.py', 'pvlib/iotools/solrad.py', 'pvlib/iotools/crn.py', 'pvlib/iotools/midc.py', 'pvlib/iotools/bsrn.py', 'pvlib/iotools/psm4.py', 'pvlib/iotools/pvgis.py', 'pvlib/iotools/sodapro.py', 'pvlib/iotools/panond.py', 'pvlib/iotools/solargis.py', 'pvlib/iotools/solaranywhere.py'],
  [('read_* and _parse_* functions', 'pvlib/iotools/')])
p('I02', 'Weather-service clients send the right request and survive bad answers',
  "For every service and argument combination, the client sends exactly the request the arguments describe (coordinates, dates, options, credentials), and for every answer of the service - success, empty, pending, refusal, server error, missing file, malformed body - it either returns the complete data with correctly stamped and scaled values or raises/warns as documented: polling ends, no partial or malformed answer is passed off as complete (a text cut off between records gives the records before the cut or an error; anything else gives an error), files that exist are all returned when others are missing or fail (with a warning), and user options such as variable mapping are honoured.",
  ['fault_sequences', 'configurations'], 'all sequences of service answers up to the bound per client x option combinations',
  'Remote tests are skipped offline; error and polling paths are mostly untested.',
  ['pvlib/iotools/psm4.py', 'pvlib/iotools/pvgis.py', 'pvlib/iotools/sodapro.py', 'pvlib/iotools/acis.py', 'pvlib/iotools/bsrn.py', 'pvlib/iotools/surfrad.py', 'pvlib/iotools/solrad.py', 'pvlib/iotools/srml.py', 'pvlib/iotools/midc.py', 'pvlib/iotools/nasa_power.py', 'pvlib/iotools/solaranywhere.py', 'pvlib/iotools/solargis.py', 'pvlib/iotools/solcast.py', 'pvlib/iotools/meteonorm.py', 'pvlib/iotools/era5.py', 'pvlib/iotools/merra2.py'],
  [('get_* functions', 'pvlib/iotools/')])
p('I03', 'Equipment databases are read completely and under predictable names',
  "For every equipment table - bundled (asked for by name in any letter case), a local file or a URL - the result has one column per record in file order and one row per field, names cleaned by replacing each special character with an underscore (titles: blanks), every number, text and missing mark as in the file, and ADR coefficients as lists of numbers. Names that repeat before or after cleaning are reported by a warning; unknown names, no source, two sources, missing files and refused downloads are errors; each call reads anew, so editing a returned table or the file changes nothing else.",
  ['inputs', 'histories'], 'all records of the bundled tables; synthetic tables over special characters x positions, cell words, coefficient spellings, line ends, URL answers; call histories',
  'Tests look at a few records of the bundled tables and skip downloads.',
  ['pvlib/pvsystem.py'],
  [('retrieve_sam, _normalize_sam_product_names, _parse_raw_sam_df', 'pvlib/pvsystem.py')])
p('Y01', 'Spatial smoothing leaves the slow signal and weights by distance',
  "For every clear-sky-index series and plant layout, the wavelets add up to the series, wavelet-based smoothing divides each but the slowest by the published distance- and timescale-dependent factor, leaves constant series unchanged, never depends on the order of the plant points, and returns a result aligned with the input; coordinate-to-distance conversion is translation invariant and correct in both axes. A single point or vanishing distances leave the series unchanged.",
  ['inputs', 'histories'], 'all short series over a small alphabet x layouts x cloud speeds x sampling intervals x input forms',
  'Tests compare one stored series.',
  ['pvlib/scaling.py'],
  [('wvm, latlon_to_xy, _compute_wavelet, _compute_vr, _compute_distances', 'pvlib/scaling.py')])
p('F01', 'Parameter extraction recovers the curve it was given',
  "For every synthetic module, each curve- and module-fitting routine returns parameters whose model reproduces the curve or datasheet points it was given within its documented accuracy, or reports that it did not converge; the ASTM E1036 extraction recovers Isc, Voc and the maximum-power point of the sampled curve regardless of the order of the samples, and curve rectification removes invalid points, sorts and merges duplicates without altering valid ones.",
  ['inputs'], 'the lattice of module parameters x sampling patterns (order, duplicates, missing, negative points)',
  'Tests fit one or two modules.',
  ['pvlib/ivtools/sde.py', 'pvlib/ivtools/sdm/desoto.py', 'pvlib/ivtools/sdm/pvsyst.py', 'pvlib/ivtools/sdm/_fit_desoto_pvsyst_sandia.py', 'pvlib/ivtools/utils.py'],
  [('fit_sandia_simple', 'pvlib/ivtools/sde.py'), ('fit_desoto, fit_desoto_batzelis, fit_pvsyst_iec61853_sandia_2025', 'pvlib/ivtools/sdm/'), ('astm_e1036, rectify_iv_curve', 'pvlib/ivtools/utils.py'), ('fit_pvefficiency_adr', 'pvlib/pvarray.py')])
p('Z01', 'Deprecated names keep working, warn once per call, and never clash',
  "For every call form of a deprecated function, class, class method or renamed parameter, the call behaves exactly like the replacement, emits the documented deprecation warning at the caller's location, and passing both the old and the new parameter is rejected; calls not using deprecated features never warn.",
  ['inputs', 'configurations'], 'all decorator option combinations x call forms (positional, old keyword, new keyword, both)',
  'Tests cover one renamed parameter.',
  ['pvlib/_deprecation.py'],
  [('deprecated, renamed_kwarg_warning, warn_deprecated', 'pvlib/_deprecation.py')])
p('Z02', 'Numeric and time helpers are exact over their whole domain',
  "For every input, the shared helpers are right: degree-based trigonometry, time conversions to Julian/Dublin/decimal forms and back, day-of-year and zone localisation, the bounded golden-section maximiser (finds the maximum of any unimodal function inside its bounds, elementwise, and reports missing bounds as missing), grid index lookup, interval detection and normalisation.",
  ['inputs'], 'angles on a fine grid; all days of leap/common years in several zones; unimodal functions x brackets; sample intervals from seconds to days',
  'Tests check a few values per helper.',
  ['pvlib/tools.py'],
  [('cosd/sind/tand/asind/acosd, _golden_sect_DataFrame, _degrees_to_index, datetime_to_djd, djd_to_datetime, localize_to_utc, _pandas_to_doy, _get_sample_intervals, normalize_max2one', 'pvlib/tools.py')])
p('Z03', 'Every numeric model is elementwise, order-free and leaves inputs alone',
  "For every public numeric model, evaluating arrays or series gives at each element the value obtained for that element alone (iterative solvers within their own tolerance); results do not depend on neighbouring elements, their order or number; scalar arguments stand for that value at every element, whole numbers mean the same as integers and as floats; series results keep the caller's index whatever it is (naive, zoned, unsorted, repeated labels, integer); repeating a call gives the same result; and no call modifies its arguments.",
  ['inputs', 'histories'], 'all public numeric functions in the registry x permutations and sub-batches of a small input set x index types x repeated calls',
  'Tests call functions with one container type and index, and rarely look at the inputs afterwards.',
  ['pvlib/irradiance.py', 'pvlib/atmosphere.py', 'pvlib/clearsky.py', 'pvlib/iam.py', 'pvlib/pvsystem.py', 'pvlib/temperature.py', 'pvlib/inverter.py', 'pvlib/shading.py', 'pvlib/tracking.py', 'pvlib/spectrum/mismatch.py', 'pvlib/bifacial/infinite_sheds.py', 'pvlib/pvarray.py', 'pvlib/albedo.py'],
  [('vectorised implementations with copies of inputs', 'pvlib/')])

p('Z04', 'Optional arguments left out mean their documented defaults',
  "For every public function, array or system component and model chain, leaving any optional argument out gives exactly the result of stating its documented default explicitly, in every combination of left-out and stated arguments; and an argument that is given takes effect as documented instead of being ignored or replaced by the default.",
  ['inputs', 'configurations'], 'every optional argument of about 100 functions, constructors and configurations x {left out, documented default, another value}, all combinations of up to a few arguments',
  'Tests call each function with one argument pattern; a changed default or an ignored option shows only for the other patterns.',
  ['pvlib/irradiance.py', 'pvlib/solarposition.py', 'pvlib/atmosphere.py', 'pvlib/clearsky.py', 'pvlib/iam.py', 'pvlib/pvsystem.py', 'pvlib/temperature.py', 'pvlib/tracking.py', 'pvlib/snow.py', 'pvlib/soiling.py', 'pvlib/bifacial/infinite_sheds.py', 'pvlib/spectrum/mismatch.py', 'pvlib/modelchain.py'],
  [('signatures and docstrings of the public functions', 'pvlib/'), ('Array, PVSystem, FixedMount, SingleAxisTrackerMount', 'pvlib/pvsystem.py'), ('ModelChain', 'pvlib/modelchain.py')])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
