import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

IO='pvlib/iotools/'
p('C01','Asynchronous download jobs: bounded wait, and only the finished job\'s data',
 "A download from a weather service that works through queued jobs (submit, poll, fetch) returns only the data of the job it submitted itself, and only after the service has declared that job finished. If the service reports the job as failed, an error is raised; if the job does not finish, the caller gets a timeout error no earlier than the given timeout and no later than one polling interval plus the response times of the service after it, and the service is neither polled in a busy loop nor polled again after the outcome is known.",
 ['schedules','fault_sequences','configurations'],
 "every queueing time, response latency, sequence of job states, adjustment of the machine's clock, timeout value and failure point of the submit/poll/fetch sequence",
 "The existing tests skip these downloads (they need credentials and a network) and never wait; the outcome depends on delays and clocks that no test controls.",
 [IO+'era5.py',IO+'solaranywhere.py'],
 [('poll loop with poll counter and sleep','pvlib/iotools/era5.py:get_era5'),('poll loop with elapsed wall-clock time','pvlib/iotools/solaranywhere.py:get_solaranywhere')],
 observe=['return value or exception of the download function','requests the simulated service received, with simulated arrival times'])

p('C02','A failed download is reported as an error and never returned as data',
 "When a remote data service answers with an error, cannot be reached, times out, drops the connection or sends a body that is not a complete well-formed reply, the download function raises an error instead of returning data, with the service's own explanation in the error where the service sent one in its documented form. Every download call ends after a bounded number of requests and reads, whatever the service sends.",
 ['fault_sequences','inputs'],
 "every remote data source the library offers, every step of its exchange, and every transport or server fault at that step",
 "The tests hardly ever contact a service and exercise a couple of canned error replies; the fault space (which step fails, how) is not sampled at all.",
 [IO+f for f in ['acis.py','bsrn.py','epw.py','era5.py','merra2.py','meteonorm.py','midc.py','nasa_power.py','psm4.py','pvgis.py','sodapro.py','solaranywhere.py','solargis.py','solcast.py','solrad.py','srml.py','surfrad.py']]+['pvlib/pvsystem.py'],
 [('status checks and raise statements after each request','pvlib/iotools/*.py:get_*'),('read_cams header loop','pvlib/iotools/sodapro.py:read_cams'),('retrieve_sam','pvlib/pvsystem.py:retrieve_sam')],
 observe=['exception or return value','number of requests and reads seen by the simulated transport'])

p('C03','A successful download is exactly what the service published for the request',
 "A successful download returns the records the service published for the requested site, period and options: every value at the instant the service assigned to it, in the documented unit and under the documented name, missing values marked as missing, and with the site's coordinates in the metadata. The period the service is asked for denotes the same instants the caller gave, whatever time zone they were expressed in (naive times are UTC unless documented otherwise), and every option the caller passes reaches the service.",
 ['configurations','inputs','histories'],
 "every HTTP weather service the library supports, every location, period, time zone, option and legal reply (record order, extra fields, missing values, latency), after any history of earlier calls",
 "Nearly all of these functions are marked remote and skipped; the few mocked tests compare one canned reply and do not look at what was asked for.",
 [IO+f for f in ['acis.py','era5.py','merra2.py','meteonorm.py','nasa_power.py','psm4.py','pvgis.py','sodapro.py','solaranywhere.py','solargis.py','solcast.py']],
 [('request parameter construction and reply parsing','pvlib/iotools/*.py:get_*'),('name and unit maps','pvlib/iotools/*.py:VARIABLE_MAP')],
 observe=['request received by the simulated service','DataFrame and metadata returned'])

p('C04','Station archives: every available file once and in order, missing ones named',
 "A download that assembles one record from several files of a measurement-station archive contains the records of every file of the requested period that the archive holds, each exactly once and in time order, converted exactly as when that file is read on its own with the same options. A file that the archive does not hold, or answers with an error status, is skipped with a warning naming it; any other failure (a lost connection, a time-out, a refused transfer, a failed local write) is raised and never passed off as a missing file; and a local copy requested along with the download is byte for byte the archive's file whenever the call succeeds.",
 ['fault_sequences','inputs','configurations'],
 "every requested period, every subset of files missing, every per-file transport fault, every position at which writing the local copy fails",
 "The tests for these archives need the network and are skipped, and none makes a file go missing or a connection fail part-way through a sequence of files.",
 [IO+f for f in ['surfrad.py','solrad.py','srml.py','bsrn.py','midc.py']],
 [('per-day and per-month loops with HTTPError handling','pvlib/iotools/solrad.py:get_solrad; pvlib/iotools/srml.py:get_srml'),('FTP session and local copy','pvlib/iotools/bsrn.py:get_bsrn'),('read_surfrad options','pvlib/iotools/surfrad.py')],
 observe=['DataFrame, metadata, warnings and exceptions','files written in the scratch directory','FTP/HTTP commands seen by the simulated archive'])

p('C05','Weather-file readers: same data from any source, and no leaked or stolen handles',
 "Reading the same bytes through a path, an open file or in-memory buffer the caller supplies, or a connection gives the same data and metadata wherever the reader accepts these sources, regardless of how the source splits its reads. A reader closes every file and connection it opened itself, also when reading fails at any point, and leaves open every buffer the caller handed in.",
 ['fault_sequences','inputs','configurations'],
 "every file reader and file format, every accepted kind of source, every read at which an I/O error or interrupt strikes",
 "Tests read intact sample files from a path and cannot observe handles left open on the failure paths.",
 [IO+f for f in ['bsrn.py','crn.py','epw.py','midc.py','panond.py','psm4.py','pvgis.py','sodapro.py','solaranywhere.py','solrad.py','srml.py','surfrad.py','tmy.py']]+['pvlib/tools.py','pvlib/location.py','pvlib/clearsky.py'],
 [('_file_context_manager','pvlib/tools.py'),('h5py context managers','pvlib/location.py:lookup_altitude; pvlib/clearsky.py:lookup_linke_turbidity')],
 observe=['returned data and metadata','open/close events of the simulated files, sockets and buffers'])

p('C06','A file cut short is rejected or read as far as it goes, never misread',
 "When a weather file ends early at any byte (an interrupted download or copy, a full disk), its reader terminates and either raises an error or returns only records the intact file holds, at the same instants and with the same values (and, once a record was read, with the metadata that precede it), except for the last record of the cut file, which may be incomplete.",
 ['crash_points','inputs'],
 "every reader, every file, every byte position of the cut",
 "Tests use intact files; the number of cut positions is the file size.",
 [IO+f for f in ['bsrn.py','crn.py','epw.py','midc.py','panond.py','psm4.py','pvgis.py','sodapro.py','solaranywhere.py','solrad.py','srml.py','surfrad.py','tmy.py']],
 [('line and fixed-width parsing loops','pvlib/iotools/*.py:read_*')],
 observe=['exception or returned data','number of reads after end of file'])

p('C07','Calls leave the caller\'s data and the process\'s settings as they were',
 "No modelling, reading or download call changes an object the caller passed in (series, frames, arrays, dicts, lists, index and their names), nor any process-wide setting or library default (environment variables, floating-point error and warning settings, pandas options, time zone, working directory, default parameter tables). This also holds when the call raises, or is interrupted at an arbitrary point.",
 ['histories','crash_points','inputs'],
 "every sequence of public calls with valid or invalid arguments, and every point at which one of them is interrupted",
 "Unit tests check results, rarely arguments or global state, and never interrupt a call.",
 ['pvlib/solarposition.py','pvlib/irradiance.py','pvlib/temperature.py','pvlib/iam.py','pvlib/soiling.py','pvlib/snow.py','pvlib/clearsky.py','pvlib/pvsystem.py','pvlib/modelchain.py','pvlib/tools.py','pvlib/scaling.py',IO],
 [('_spa_python_import environment handling','pvlib/solarposition.py'),('np.errstate and warnings context managers','pvlib/*.py'),('copies of arguments and default tables','pvlib/modelchain.py, pvlib/iotools/*.py')],
 state=[dict(name='PVLIB_USE_NUMBA',meaning='environment variable switching the SPA implementation',where='pvlib/solarposition.py:_spa_python_import')],
 observe=['deep snapshots of arguments and of process state before and after each call'])

p('C08','Concurrent callers get the results they would get alone',
 "When several threads of one process use the library at the same time, with separate or shared read-only inputs (the same system, location, weather and parameter tables), each call returns what it returns when made alone, however the threads are interleaved.",
 ['schedules'],
 "every interleaving, at statement granularity inside the library, of any set of calls made by up to four threads",
 "Tests are single-threaded; a race shows only under particular interleavings.",
 ['pvlib/solarposition.py','pvlib/spa.py','pvlib/modelchain.py','pvlib/pvsystem.py','pvlib/location.py','pvlib/irradiance.py','pvlib/clearsky.py','pvlib/temperature.py','pvlib/singlediode.py','pvlib/tracking.py','pvlib/iam.py','pvlib/bifacial/'],
 [('absence of shared mutable state; module-level tables are only read','pvlib/*.py')],
 state=[dict(name='spa.USE_NUMBA',meaning='module flag changed by reloading the module when the SPA implementation is switched',where='pvlib/spa.py')],
 observe=['result or exception of every call, against the same call made alone in a fresh process'])

p('C09','Multi-threaded solar position does not depend on thread count or timing',
 "The accelerated solar position calculation gives, for every timestamp, the same result whatever the number of worker threads, the length of the batch and the order in which the workers run, and the same as the single-threaded reference implementation within floating-point tolerance; it returns only after all workers have finished and keeps no state from earlier calls.",
 ['schedules','configurations','inputs'],
 "every thread count (including more threads than timestamps), batch length and start/finish order of the workers",
 "Tests use one small batch with a few thread counts and whatever order the operating system picks.",
 ['pvlib/spa.py','pvlib/solarposition.py'],
 [('chunking of the batch and the shared result array','pvlib/spa.py:solar_position_numba'),('implementation switch','pvlib/solarposition.py:_spa_python_import')],
 observe=['result arrays'])

p('C10','A model chain\'s results depend only on the current inputs, not on earlier runs',
 "Every simulation run with a model chain gives the results a newly built chain with the same system, location and options gives for the same inputs, whatever runs (of any entry point, with any data, shape or length, successful or failed) the chain performed before. The system, arrays, location and configuration are unchanged by a run, and results a caller kept from an earlier run keep their values.",
 ['histories','inputs','configurations'],
 "every sequence of runs through every entry point, over single- and multi-array systems, with complete, partial or invalid inputs",
 "Tests build a chain, run it once and look at it; sequences of different runs on one chain are hardly exercised.",
 ['pvlib/modelchain.py','pvlib/pvsystem.py','pvlib/location.py'],
 [('prepare_inputs / run_model family assigning results','pvlib/modelchain.py:ModelChain'),('per-array result tuples','pvlib/modelchain.py:ModelChainResult')],
 state=[dict(name='results',meaning='result container of the last run',where='pvlib/modelchain.py:ModelChain')],
 observe=['results container against that of a fresh chain after every run'])

p('C11','An interrupted simulation leaves nothing broken behind',
 "If a simulation or modelling call is interrupted at an arbitrary point (exception, keyboard interrupt, out of memory), or the objects it used are saved and restored (copied or pickled) in a new process, then repeating the call with the same inputs on the same or restored objects gives the result of an uninterrupted run, and no result of the aborted run shows up in it.",
 ['crash_points','histories'],
 "every statement of the library inside the call as the point of interruption, and any number of aborted attempts and save/restore steps before the completed one",
 "No test interrupts a call, and the number of interruption points is the number of executed statements.",
 ['pvlib/modelchain.py','pvlib/pvsystem.py','pvlib/location.py','pvlib/solarposition.py','pvlib/tools.py'],
 [('results written step by step into the chain','pvlib/modelchain.py'),('module reload and environment switch','pvlib/solarposition.py:_spa_python_import')],
 observe=['results of the completed repeat against an uninterrupted run in a fresh process'])

p('C12','Snow and soiling simulations can be stopped and resumed without a trace',
 "For the loss models that accept a starting condition (snow slide-off coverage, rain-cleaned soiling), running a record in pieces, each started from the condition the previous piece ended with, gives the same series as one uninterrupted run over the whole record, provided that the pieces carry the look-back the model documents.",
 ['crash_points','inputs'],
 "every record, every set of stop/restart positions, every starting condition, sampling interval and parameter set",
 "Tests run whole short records; the split positions and the state at the split are never varied.",
 ['pvlib/snow.py','pvlib/soiling.py'],
 [('initial_coverage handling in coverage_nrel','pvlib/snow.py'),('initial_soiling and cleaning-event bookkeeping in kimber','pvlib/soiling.py')],
 state=[dict(name='coverage / soiling level',meaning='state carried from one time step to the next',where='pvlib/snow.py:coverage_nrel, pvlib/soiling.py:kimber')],
 observe=['concatenated series against the uninterrupted series'])

p('C13','Time-stepping models never let the future change the past',
 "For the models that march through time (soiling, snow coverage, thermal-inertia module temperature), the value at a time step depends only on that and earlier records: re-running as the record grows, or with different later data, reproduces every value already reported.",
 ['crash_points','histories','inputs'],
 "every record, every length of the record at the moment of evaluation and every continuation",
 "Tests evaluate one complete record; whether a prefix would have given the same values is not examined.",
 ['pvlib/soiling.py','pvlib/snow.py','pvlib/temperature.py'],
 [('rolling sums and forward fills','pvlib/soiling.py'),('recursive slide-off loop','pvlib/snow.py'),('fuentes time loop and prilliman moving average','pvlib/temperature.py')],
 observe=['prefix of the long run against the short run'])

p('C14','Results do not depend on how telemetry was delivered',
 "For every model that treats records independently (sun position, clear sky, transposition, decomposition, air mass, cell temperature, incidence angle, spectral, electrical and inverter models, and whole-plant simulation built from them), the result for a record is the same whether it is processed alone, in a batch of any size, in order or shuffled, or delivered twice; a lost or invalid reading in one record affects no other record. Results carry the index of the input they belong to.",
 ['schedules','fault_sequences','inputs'],
 "every order, batching, duplication and loss of records on their way to the model, for every row-wise model",
 "Tests compare fixed complete batches with stored values; how a batch was put together never varies.",
 ['pvlib/solarposition.py','pvlib/irradiance.py','pvlib/atmosphere.py','pvlib/clearsky.py','pvlib/temperature.py','pvlib/iam.py','pvlib/spectrum/','pvlib/pvsystem.py','pvlib/singlediode.py','pvlib/inverter.py','pvlib/tracking.py','pvlib/shading.py','pvlib/bifacial/','pvlib/albedo.py','pvlib/modelchain.py'],
 [('vectorised element-wise arithmetic, masks and index handling','pvlib/*.py')],
 observe=['per-record results of every delivery against the record processed alone'])

p('C15','Results depend on the instant, not on how the clock writes it',
 "A calculation driven by timestamps gives the same values for the same instants whatever time zone they are expressed in, naive timestamps counting as UTC, whatever resolution they are stored in, and whatever local time zone or daylight-saving jump the machine or the station clock is in. Quantities tied to a local day or clock (hour angle, solar time, sunrise, sunset, transit) are right on days when the clock jumps.",
 ['inputs','configurations','fault_sequences'],
 "every time zone and offset, every daylight-saving jump (spring, autumn, at any hour), every timestamp resolution and machine time zone",
 "Tests use one or two zones, mostly without a clock change in the data.",
 ['pvlib/solarposition.py','pvlib/tools.py','pvlib/irradiance.py','pvlib/clearsky.py','pvlib/location.py','pvlib/tracking.py','pvlib/modelchain.py','pvlib/atmosphere.py'],
 [('_pandas_to_utc, localize_to_utc, _datetimelike_scalar_to_doy','pvlib/tools.py'),('hour_angle, _times_to_hours_after_local_midnight, sun_rise_set_transit_*','pvlib/solarposition.py')],
 observe=['results for the same instants under different clock representations'])

p('C16','Arrays of one plant are simulated independently of each other',
 "In a plant with several arrays, each array's intermediate and DC results are those of a plant holding only that array with the same inputs, in the order of the arrays, and the plant's AC power follows from all of them. A faulty or missing sensor record of one array changes no result of another array, and inputs of the wrong number or of unequal time stamps are rejected rather than mixed up.",
 ['fault_sequences','inputs','configurations'],
 "every number and order of arrays, combination of mounts, modules, models and per-array inputs, and every per-array sensor fault",
 "Tests use two near-identical arrays with intact inputs and seldom compare with single-array plants.",
 ['pvlib/modelchain.py','pvlib/pvsystem.py'],
 [('per-array tuples and _unwrap_single_value','pvlib/pvsystem.py'),('_per_array_* and input length checks','pvlib/modelchain.py')],
 observe=['per-array results against single-array plants'])

p('C17','A call\'s answer does not depend on which calls were made before',
 "Every modelling function returns, for given arguments, the same answer as in a fresh process, whatever other calls (with other arguments, other implementations or options, failing calls, calls whose results the caller then modified) were made before it in the same process.",
 ['histories','fault_sequences'],
 "every sequence of calls over the public functions, including failing ones and callers that overwrite the results they received",
 "Each test starts from its own state and makes few calls; histories are not explored.",
 ['pvlib/'],
 [('absence of hidden caches and mutable defaults','pvlib/*.py'),('implementation switch of the solar position module','pvlib/solarposition.py:_spa_python_import')],
 observe=['result against the same call in a fresh process'])

NA='Pure function of its input'
def n(id,title,statement,files,mech,why):
    p(id,title,statement,['inputs'],'every physically admissible input',why,files,mech,observe=['return values'])
n('N01','Irradiance components close',"Global, direct and diffuse irradiance returned together satisfy GHI = DHI + DNI cos(zenith) wherever the method defines closure, and none is negative.",['pvlib/irradiance.py'],[('decomposition models','pvlib/irradiance.py')],'Tests compare a few stored values.')
n('N02','Plane-of-array components add up and are non-negative',"Total plane-of-array irradiance equals the sum of its beam, sky-diffuse and ground components for every sky model, and a horizontal plane receives the horizontal irradiance.",['pvlib/irradiance.py'],[('get_total_irradiance','pvlib/irradiance.py')],'A few geometries only.')
n('N03','Single-diode results satisfy the diode equation',"Every current-voltage pair returned by the electrical solvers satisfies the single-diode equation, and the maximum power point is the maximum, for every solution method.",['pvlib/singlediode.py','pvlib/pvsystem.py'],[('bishop88, lambertw','pvlib/singlediode.py')],'A few parameter sets only.')
n('N04','Sun position algorithms agree within their stated accuracy',"The independent sun position algorithms agree with each other within their published accuracy for every date, place and refraction option.",['pvlib/solarposition.py','pvlib/spa.py'],[('get_solarposition','pvlib/solarposition.py')],'A few instants only.')
n('N05','Inverter output never exceeds its rating',"AC power is capped at the rated power, equals minus the night tare below the start-up power, and never exceeds the DC power by more than the model error.",['pvlib/inverter.py'],[('sandia, adr, pvwatts','pvlib/inverter.py')],'A few inverters only.')
n('N06','Incidence-angle modifiers stay in their range',"Every incidence-angle modifier is one at normal incidence, zero beyond 90 degrees, never outside the documented range, and the diffuse modifier is the matching hemispherical average.",['pvlib/iam.py'],[('iam models','pvlib/iam.py')],'A few angles only.')
n('N07','Tracker rotation respects limits and avoids row-to-row shade',"Tracker angles stay within the stated limit, backtracking leaves no row shaded on the stated geometry, and the incidence angle matches the returned surface orientation.",['pvlib/tracking.py','pvlib/shading.py'],[('singleaxis','pvlib/tracking.py')],'A few geometries only.')
n('N08','Bifacial view factors conserve energy',"View factors from any surface sum to one and rear and front irradiance stay within the available irradiance.",['pvlib/bifacial/'],[('infinite_sheds, utils','pvlib/bifacial/')],'A few geometries only.')
n('N09','Parameter fitting inverts the model it fits',"Fitting a model to data the model generated returns the parameters it was generated with, within tolerance.",['pvlib/ivtools/','pvlib/pvarray.py','pvlib/iam.py','pvlib/temperature.py','pvlib/spectrum/'],[('fit_* functions','pvlib/ivtools/')],'One or two examples each.')
n('N10','Clear-sky and air-mass models are monotone and bounded',"Clear-sky irradiance never exceeds the extraterrestrial irradiance and falls with turbidity; air mass grows with zenith angle and is undefined below the horizon.",['pvlib/clearsky.py','pvlib/atmosphere.py'],[('ineichen, simplified_solis, get_relative_airmass','pvlib/clearsky.py')],'A few values only.')
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P: jsonschema.validate(q,s)
print(len(P))
