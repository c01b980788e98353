"""Regenerates known_findings.json from the lists below (never at check time)."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [  # (property, commit subject prefix, what failed)
    ('S03', 'fix: pass altitude and temperature to spa_c', "get_solarposition(method='nrel_c') gave the temperature as the altitude and ignored the altitude"),
    ('S01', 'fix: honour atmos_refract=0', 'spa_python(atmos_refract=0) used 0.5667'),
    ('S03', 'fix: solar_azimuth_analytical at solar noon', 'azimuth 180 at zero hour angle where the sun is due north'),
    ('S05', 'fix: hour angle and geometric sunrise', 'hour angle off by the DST shift on days when the clocks change'),
    ('S04', 'fix: sun_rise_set_transit_spa returned', 'events of the neighbouring local day at sites where solar noon is near 00:00 UTC'),
    ('T01', 'fix: klucher raised', 'klucher raised ZeroDivisionError for scalar zero irradiance'),
    ('T01', 'fix: perez_driesse components', 'perez_driesse(return_components=True) components did not sum to the clipped total'),
    ('C01', 'fix: simplified_solis with integer', 'simplified_solis truncated with integer arrays and failed for a one-element series'),
    ('C01', 'fix: haurwitz truncated', 'haurwitz returned integers for an integer zenith series'),
    ('C03', 'fix: detect_clearsky raised', 'detect_clearsky raised ValueError for integer irradiance'),
    ('C03', 'fix: sample interval of one day', 'sample interval dropped days and fractions of a second'),
    ('V01', 'fix: chandrupatla maximum power', 'bishop88_mpp(method=chandrupatla) failed or was wrong for integer or scalar photocurrent'),
    ('V01', 'fix: chandrupatla bracket crossed', 'chandrupatla bracket crossed the recombination asymptote (wrong maximum power or NaN)'),
    ('V01', 'fix: bracketing solvers lost', 'brentq raised and chandrupatla gave NaN open-circuit voltage for infinite shunt resistance'),
    ('V01', 'fix: NsVbi capped', 'NsVbi below Voc broke the solvers although d2mutau was zero'),
    ('V01', 'fix: derivative of the reverse', 'bishop88 gradients with breakdown_factor lacked the inner derivative, so the maximum power point was wrong'),
    ('V01', 'fix: bishop88 lost voltages', 'bishop88 gave NaN below breakdown_voltage with breakdown_factor=0'),
    ('V02', 'fix: calcparams_desoto raised', 'calcparams_desoto raised ZeroDivisionError for scalar zero irradiance'),
    ('V03', 'fix: sapm gave NaN power', 'sapm gave NaN power at zero irradiance for modules with negative C2 (281 of 523 bundled modules)'),
    ('V03', 'fix: sapm lost the index', 'sapm lost the index of a Series irradiance with scalar temperature'),
    ('N01', 'fix: sandia inverter failed', 'sandia inverter failed for a voltage Series with scalar power'),
    ('N01', 'fix: sandia_multi raised', 'sandia_multi raised ZeroDivisionError for scalar zero power'),
    ('N01', 'fix: adr inverter failed for scalar', 'adr inverter failed for scalar zero voltage and for inputs of different shapes'),
    ('N01', 'fix: inverter.pvwatts failed', 'inverter.pvwatts failed for scalar power with array pdc0'),
    ('H01', 'fix: noct_sam was NaN', 'noct_sam with effective_irradiance was NaN (ZeroDivisionError for scalars) at zero irradiance, so ModelChain gave NaN cell temperature at night'),
    ('B01', 'fix: _unshaded_ground_fraction lost', 'dense rows (gcr above 0.95) at projected zenith 84 to 85 degrees: part of the fully shaded ground counted as lit'),
    ('W01', 'fix: fully_covered_nrel failed', 'fully_covered_nrel/coverage_nrel raised for daily (or longer) snowfall records and for fewer than three records'),
    ('X04', 'fix: arrays with inferred temperature', 'editing the inferred temperature parameters of one Array changed all others and the global table'),
    ('X03', "fix: ModelChain accepted any substring", "ac_model '', 'a', 'd', 'r', 'ad', 'dr' silently selected the ADR inverter"),
    ('X01', 'fix: adr inverter failed when data', 'single-array chain with the ADR inverter failed when the data came as a list or tuple of one'),
    ('X01', 'fix: irrad_ref was ignored', 'irrad_ref of the array was ignored when module_temperature was given'),
    ('X02', 'fix: ModelChain results kept values', 'results kept solar position, aoi, albedo, ... of an earlier run on another index'),
    ('X02', 'fix: complete_irradiance failed after', 'complete_irradiance failed after a run whose data came as a list of one'),
    ('X01', 'fix: pvwatts inverter was applied', 'pvwatts AC model after a sapm/single-diode DC model gave a DataFrame with one column per DC quantity'),
    ('X03', "fix: dc_model='singlediode'", "dc_model='singlediode' was accepted without setting a model"),
    ('D01', 'fix: clearsky_index failed', 'clearsky_index raised ZeroDivisionError for scalar zero clear-sky irradiance'),
    ('Z02', 'fix: count samples per window', 'clear-sky window sample count one short for e.g. a 23 min window of 23 s samples'),
    ('Y01', 'fix: wvm gave NaN for a single point', 'wvm of a single point returned NaN instead of the series'),
    ('Y01', 'fix: wvm dropped whole days', 'wvm took a sampling interval of one day and a second as one second'),
    ('I01', "fix: keep everything after the first '='", 'read_panond cut a value at its second equals sign (Comment=a=b was read as a)'),
    ('I02', 'fix: get_surfrad honours', 'get_surfrad ignored map_variables=False'),
    ('I02', 'fix: get_nasa_power accepts', "get_nasa_power with parameters='ghi' (a documented string) requested g,h,i"),
    ('I02', 'fix: get_solargis accepts', "get_solargis refused time_resolution 'PT30M' (only the misspelt 'PT30' worked)"),
    ('I02', 'fix: send timezone-aware Meteonorm', 'Meteonorm clients sent the local clock of timezone-aware times labelled as UTC'),
    ('I02', 'fix: raise HTTPError for PSM4', 'PSM4 clients raised KeyError instead of HTTPError for JSON errors without an errors field'),
    ('I02', 'fix: raise HTTPError for CAMS', 'get_cams raised IndexError instead of HTTPError when the error body is no exception report'),
    ('I02', 'fix: raise HTTPError for PVGIS', 'PVGIS clients raised KeyError instead of HTTPError for JSON errors without a message'),
    ('I02', 'fix: get_meteonorm_tmy sends', 'get_meteonorm_tmy ignored the albedo argument'),
    ('I01', 'fix: read_cams looped forever', 'read_cams (and get_cams for a garbled answer) looped forever when the line with the column names is missing'),
    ('I02', 'fix: get_solargis returned object', 'get_solargis columns with missing values had object dtype (pd.NA among floats)'),
    ('I02', 'fix: read_pvgis_tmy padded truncated', 'read_pvgis_tmy read a csv file cut off in the middle as a full set of 8760 rows, the missing ones empty'),
    ('M01', 'fix: iam.physical gave NaN at -90', 'iam.physical with n = 1 gave NaN instead of 0 for angles of -90 degrees and beyond'),
    ('M02', 'fix: marion_integrate lost the band', 'marion_integrate left out the band next to the horizon for some num (42, 100, 500...); the horizon region came out 0'),
    ('Z03', 'fix: perez appended an element', 'perez with a Series input and scalar airmass returned a Series with an extra element labelled False'),
    ('D02', 'fix: gti_dirint beyond 90 degrees', "gti_dirint returned NaN for most instants beyond 90 degrees of incidence: the DIRINT coefficient was looked up with kt' of the instant itself"),
    ('F01', 'fix: fit_sandia_simple raised Zero', 'fit_sandia_simple raised ZeroDivisionError instead of the documented RuntimeError when no measured point is above ilim*i_sc'),
]
FINDINGS = [
    dict(property='F01', key='desoto_sandia EgRef sign of dEgdT',
         what='fit_desoto_sandia returns EgRef 17 % too high for every module: the regression for Io uses +dEgdT*(T-T0)/T where the De Soto '
              'equation has a minus sign (_extract_sdm_params in pvlib/ivtools/sdm/_fit_desoto_pvsyst_sandia.py); Voc away from 25 degC is not '
              'reproduced. Not repaired: tests/ivtools/sdm/test_desoto.py pins the wrong value 1.3112547292120638'),
    dict(property='F01', key='spline piece after an inserted knot misses the next data point',
         what='_schumaker_qspline (pvlib/ivtools/utils.py): the quadratic after an inserted knot divides its slope change by the whole data interval '
              'instead of the distance from the knot to the next point, so it misses that point. Not repaired: tests/ivtools/test_utils.py and '
              'test_sde.py pin the wrong coefficients'),
    dict(property='I01', key='solrad last digit cut',
         what='read_solrad cuts the last character of the last column (0.066 is read as 0.06): the column widths forget that every line starts '
              'with a blank. Not repaired: tests/iotools/test_solrad.py pins the cut values'),
    dict(property='I02', key='acis station altitude in feet',
         what='get_acis_available_stations returns the station altitude in feet; every other ACIS function converts it to metres. Not repaired: '
              'tests/iotools/test_acis.py pins 940.0 (feet)'),
]
exec(open(os.path.join(H, 'tools', 'findings_list.py')).read()) if os.path.exists(os.path.join(H, 'tools', 'findings_list.py')) else None
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
fixed = []
for pid, pre, what in FIX:
    h = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith(pre)]
    assert len(h) == 1, (pre, h)
    fixed.append(f'fixed: property={pid} {h[0]} {what}')
json.dump(dict(findings=FINDINGS, fixed=fixed), open(os.path.join(H, 'known_findings.json'), 'w'), indent=1)
print(len(FINDINGS), 'findings', len(fixed), 'fixed')
