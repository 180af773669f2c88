"""Writes known_findings.json (run after editing the lists below)."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def commit(prefix):
    out = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
                         capture_output=True, text=True).stdout
    for line in out.splitlines():
        if line.split(' ', 1)[1].startswith(prefix):
            return line.split()[0]
    raise SystemExit('no commit ' + prefix)
KNOWN = [
    ('C02', 'sam_url:html_page', 'failure-returned-as-data',
     'retrieve_sam(path=URL): a reply with status 200 that is an HTML page '
     '(login or proxy page) instead of a CSV library is parsed as a database '
     'with one nonsense module instead of raising an error'),
    ('C06', 'srml:second-record', 'misread',
     'read_srml: in a file cut inside its second record, the torn time of '
     'that record is taken for the sampling interval, so that the first '
     'record is given a wrong time'),
    ('C16', 'sun_from_first_array', 'sensor-fault',
     'ModelChain with one weather record per array: the sun position of the '
     'whole plant is calculated with temp_air and pressure of the first '
     'array\'s record, so that a faulty (NaN) air temperature or pressure of '
     'the first array makes the results of all other arrays NaN or wrong'),
    ('C15', 'gti_dirint_local_day', 'differs',
     'gti_dirint divides the records into mornings and afternoons of calendar '
     'days of the clock in which the times are written (times.date), so that '
     'the values for angles of incidence of 90 degrees and more depend on '
     'the time zone of the index'),
]
FIXED = [
    ('C03', 'fix: convert time zone aware start and end to UTC in get_meteonorm',
     'get_meteonorm_* sent the wall-clock time of tz-aware start/end as UTC'),
    ('C03', 'fix: pass albedo on',
     'get_meteonorm_tmy did not pass albedo on to the service'),
    ('C03', 'fix: convert time zone aware start and end to UTC in get_nasa',
     'get_nasa_power sent the date in the caller\'s zone although the '
     'service works in UTC'),
    ('C03', 'fix: accept a single parameter',
     'get_nasa_power(parameters=\'ghi\') asked for the parameters g,h,i'),
    ('C03', 'fix: return missing Solargis values as NaN',
     'get_solargis returned pd.NA in object columns, so that a record with '
     'missing values cannot be used as numbers'),
    ('C03', 'fix: recognise the ISO 8601 duration PT30M',
     'get_solargis(time_resolution=\'PT30M\') was sent as the unknown '
     'summarization PT30M'),
    ('C02', 'fix: do not loop forever in read_cams',
     'read_cams/get_cams never returned when the body ended inside the '
     'header'),
    ('C01', 'fix: measure the timeout of get_solaranywhere',
     'a clock adjustment ended the wait early or extended it'),
    ('C02', "fix: raise the service's error when polling",
     'an HTTP error while polling was taken for a job still in the queue; '
     'the service\'s explanation was lost'),
    ('C04', 'fix: pass map_variables on in get_surfrad',
     'get_surfrad(map_variables=False) renamed the columns all the same'),
    ('C04', 'fix: keep the name of a data element that equals the year',
     'SRML files of a year that equals a data element number (2010: DNI) '
     'lost the name of that column'),
    ('C04', 'fix: recognise Madison files by file name',
     'a directory or mirror whose name contains msn made read_solrad use '
     'the Madison layout for every station'),
    ('C05', 'fix: close the file or connection in read_surfrad',
     'read_surfrad left its file or connection open when reading failed'),
    ('C05', 'fix: close the connection in read_epw',
     'read_epw left its connection open when the download failed'),
    ('C05', 'fix: close the connection in retrieve_sam',
     'retrieve_sam left its connection open when the download failed'),
    ('C06', 'fix: reject an incomplete data section in read_pvgis_tmy',
     'read_pvgis_tmy filled up a csv file that ends early with records '
     'without time and values'),
    ('C10', 'fix: start every ModelChain run with an empty',
     'results of an earlier run that the entry point does not compute stayed '
     'in ModelChain.results; complete_irradiance failed after a run with a '
     'list of one DataFrame'),
    ('C10', 'fix: do not modify a user\'s DC results in place',
     'losses were applied to the object a user-supplied dc_model had '
     'assigned, and again on the next run'),
    ('C16', 'fix: choose the irradiance for cell temperature per array',
     'poa_global given for one array was ignored when another array\'s data '
     'had none'),
    ('C16', 'fix: use the albedo given for an array although',
     'albedo given for one array was ignored when another array\'s weather '
     'had none'),
    ('C13', 'fix: do not let later records change the first value of fully',
     'the first value of fully_covered_nrel (and the coverage_nrel that '
     'follows from it) depended on whether a later record leaves a gap'),
    ('C11', 'fix: bind the models of a copied ModelChain',
     'a ModelChain copied with copy.copy ran its models on the original '
     'chain'),
    ('C14', 'fix: accept a single record as Series in simplified_solis',
     'simplified_solis failed for a Series of one record'),
    ('C14', 'fix: let a missing value not fail the other records with brentq',
     'a NaN in one record made v_from_i, i_from_v, singlediode and the '
     'bishop88 functions with method brentq fail for all records'),
    ('C15', 'fix: hour_angle on days with a daylight saving',
     'hour_angle was wrong by the clock jump after (or before) the jump'),
    ('C15', 'fix: sun_rise_set_transit_geometric on days with',
     'sunrise, sunset and transit were wrong by the clock jump on the day of '
     'the jump'),
    ('C15', 'fix: local day of sun_rise_set_transit_spa',
     'sun_rise_set_transit_spa returned the sun\'s times of another local '
     'day where local noon is on another day of UTC (UTC+13, UTC+14, ...)'),
    ('C15', 'fix: local day of sun_rise_set_transit_geometric',
     'sun_rise_set_transit_geometric returned the next day\'s times in '
     'zones east of the date line at western longitudes'),
    ('C15', 'fix: daily and local-time records in fully_covered_nrel',
     'fully_covered_nrel and coverage_nrel raised TypeError for daily '
     'records, or not, depending on how the clock writes them'),
    ('C07', 'fix: PVLIB_USE_NUMBA set by the user is kept',
     'PVLIB_USE_NUMBA of the environment was lost when a solar position was '
     'calculated with another implementation'),
    ('C09', 'fix: raise the errors of the worker threads',
     'an exception in a worker thread of the numba solar position was '
     'swallowed and uninitialised memory returned as the result'),
    ('C08', 'fix: switching the spa implementation while',
     'one thread reloading pvlib.spa changed the functions other threads '
     'were in the middle of calling (exceptions or wrong values)'),
    ('C17', 'fix: give every array its own copy of the default temperature',
     'Array and PVSystem with default temperature model parameters shared '
     'the table of the library, so that a caller who adapted the parameters '
     'of his array changed all others and the defaults'),
    ('C13', 'fix: count whole days in the sampling interval',
     'prilliman raised ZeroDivisionError for daily records and took records '
     'every 25 hours for hourly ones (detect_clearsky likewise)'),
    ('C15', 'fix: daily records in local time are regular',
     'prilliman and detect_clearsky rejected daily records written in a '
     'local time zone with a clock jump in between, accepted in UTC'),
    ('C02', 'fix: get_solaranywhere returned the body of an error status',
     'the poll of get_solaranywhere accepted a reply with an error status '
     '(e.g. 403 or 500) whose body said Done, and returned it as data'),
    ('C06', 'fix: read_surfrad keeps missing values missing when',
     'read_surfrad, file cut inside the last value so that a lone minus sign '
     'is left: the missing values of that column came back as the text '
     '-9999.9'),
]
out = [dict(property=p, status='known', key=k, kind=kind, what=w)
       for p, k, kind, w in KNOWN]
for p, c, w in FIXED:
    h = commit(c)
    out.append(dict(property=p, status='fixed', commit=h, what=w,
                    line=f'fixed: property={p} {h} {w}'))
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump({'findings': out}, f, indent=1)
    f.write('\n')
