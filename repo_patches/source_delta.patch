From 8825e537a24d2cee753f97cc57fa8a16800ae4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 01/37] fix: convert time zone aware start and end to UTC in
 get_meteonorm functions

---
 pvlib/iotools/meteonorm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/meteonorm.py b/pvlib/iotools/meteonorm.py
index 61bf72b..a43e9ca 100644
--- a/pvlib/iotools/meteonorm.py
+++ b/pvlib/iotools/meteonorm.py
@@ -545,14 +545,20 @@ def _get_meteonorm(
     if (start is not None) & (start != 'now'):
         try:
             start = pd.Timestamp(start)
-            start = start.tz_localize("UTC") if start.tzinfo is None else start
+            start = (
+                start.tz_localize("UTC") if start.tzinfo is None
+                else start.tz_convert("UTC")
+            )
             start = start.strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
     if (end is not None) & (end != 'now'):
         try:
             end = pd.Timestamp(end)
-            end = end.tz_localize("UTC") if end.tzinfo is None else end
+            end = (
+                end.tz_localize("UTC") if end.tzinfo is None
+                else end.tz_convert("UTC")
+            )
             end = end.strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
-- 
2.43.0


From 01f65f52ec78eadff00c33c45f898ecb1f3f3484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 02/37] fix: pass albedo on to the service in get_meteonorm_tmy

---
 pvlib/iotools/meteonorm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/iotools/meteonorm.py b/pvlib/iotools/meteonorm.py
index a43e9ca..2d5dfe2 100644
--- a/pvlib/iotools/meteonorm.py
+++ b/pvlib/iotools/meteonorm.py
@@ -505,6 +505,7 @@ def get_meteonorm_tmy(
                         addendum=msg)
     additional_params = {
         "situation": terrain_situation,
+        "albedo": albedo,
         "turbidity": turbidity,
         "clear_sky_radiation_model": clear_sky_radiation_model,
         "random_seed": random_seed,
-- 
2.43.0


From df849be7be6b2af324c36c435333c2f7f96a8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 03/37] fix: convert time zone aware start and end to UTC in
 get_nasa_power

---
 pvlib/iotools/nasa_power.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvlib/iotools/nasa_power.py b/pvlib/iotools/nasa_power.py
index 7ab3829..bbfedd0 100644
--- a/pvlib/iotools/nasa_power.py
+++ b/pvlib/iotools/nasa_power.py
@@ -117,6 +117,11 @@ def get_nasa_power(latitude, longitude, start, end,
     """
     start = pd.Timestamp(start)
     end = pd.Timestamp(end)
+    # the service is asked for times in UTC (naive times are in UTC)
+    if start.tzinfo is not None:
+        start = start.tz_convert('UTC')
+    if end.tzinfo is not None:
+        end = end.tz_convert('UTC')
 
     # allow the use of pvlib parameter names
     parameter_dict = {v: k for k, v in VARIABLE_MAP.items()}
-- 
2.43.0


From deeba433ee124b36583b9bf8e0db7a84d16bc073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 04/37] fix: accept a single parameter given as str in
 get_nasa_power

---
 pvlib/iotools/nasa_power.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvlib/iotools/nasa_power.py b/pvlib/iotools/nasa_power.py
index bbfedd0..44f36c5 100644
--- a/pvlib/iotools/nasa_power.py
+++ b/pvlib/iotools/nasa_power.py
@@ -123,6 +123,10 @@ def get_nasa_power(latitude, longitude, start, end,
     if end.tzinfo is not None:
         end = end.tz_convert('UTC')
 
+    # Allow specifying single parameters as string
+    if isinstance(parameters, str):
+        parameters = [parameters]
+
     # allow the use of pvlib parameter names
     parameter_dict = {v: k for k, v in VARIABLE_MAP.items()}
     parameters = [parameter_dict.get(p, p) for p in parameters]
-- 
2.43.0


From 95cd14e9b81fd9a3ae29e30a6e0c1289ab26f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 05/37] fix: return missing Solargis values as NaN in float
 columns

---
 pvlib/iotools/solargis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/solargis.py b/pvlib/iotools/solargis.py
index 375c7ed..6337076 100644
--- a/pvlib/iotools/solargis.py
+++ b/pvlib/iotools/solargis.py
@@ -1,5 +1,6 @@
 """Functions to retrieve and parse irradiance data from Solargis."""
 
+import numpy as np
 import pandas as pd
 import requests
 from dataclasses import dataclass
@@ -198,7 +199,7 @@ def get_solargis(latitude, longitude, start, end, variables, api_key,
     # Replace "-9" with nan values for specific columns
     for variable in data.columns:
         if variable in NA_9_COLUMNS:
-            data[variable] = data[variable].replace(-9, pd.NA)
+            data[variable] = data[variable].replace(-9, np.nan)
 
     # rename and convert variables
     if map_variables:
-- 
2.43.0


From 69d719d6efd78e41e63150878abb6b94b2585646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 06/37] fix: recognise the ISO 8601 duration PT30M in
 get_solargis

---
 pvlib/iotools/solargis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/solargis.py b/pvlib/iotools/solargis.py
index 6337076..22e8251 100644
--- a/pvlib/iotools/solargis.py
+++ b/pvlib/iotools/solargis.py
@@ -12,8 +12,8 @@ URL = 'https://solargis.info/ws/rest/datadelivery/request'
 TIME_RESOLUTION_MAP = {
     5: 'MIN_5', 10: 'MIN_10', 15: 'MIN_15', 30:  'MIN_30', 60: 'HOURLY',
     'PT05M': 'MIN_5', 'PT5M': 'MIN_5', 'PT10M': 'MIN_10', 'PT15M': 'MIN_15',
-    'PT30': 'MIN_30', 'PT60M': 'HOURLY', 'PT1H': 'HOURLY', 'P1D': 'DAILY',
-    'P1M': 'MONTHLY', 'P1Y': 'YEARLY'}
+    'PT30': 'MIN_30', 'PT30M': 'MIN_30', 'PT60M': 'HOURLY', 'PT1H': 'HOURLY',
+    'P1D': 'DAILY', 'P1M': 'MONTHLY', 'P1Y': 'YEARLY'}
 
 
 @dataclass
-- 
2.43.0


From 07c222065e6f95731d7ca125b342c1b7a28e004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 07/37] fix: do not loop forever in read_cams when the header
 is incomplete

---
 pvlib/iotools/sodapro.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/sodapro.py b/pvlib/iotools/sodapro.py
index be11dbf..ba55b92 100644
--- a/pvlib/iotools/sodapro.py
+++ b/pvlib/iotools/sodapro.py
@@ -294,7 +294,11 @@ def read_cams(filename, integrated=False, label=None, map_variables=True):
 
         # Initial lines starting with # contain metadata
         while True:
-            line = fbuf.readline().rstrip('\n')
+            line = fbuf.readline()
+            if not line:  # end of file
+                raise ValueError('The line with the column names, starting '
+                                 'with "# Observation period", is missing.')
+            line = line.rstrip('\n')
             if line.startswith('# Observation period'):
                 # The last line of the metadata section has the column names
                 names = line.lstrip('# ').split(';')
-- 
2.43.0


From 782c6eb34b3f8ff0a732b0a21fd16c23cbce42c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 08/37] fix: measure the timeout of get_solaranywhere with a
 monotonic clock

---
 pvlib/iotools/solaranywhere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/solaranywhere.py b/pvlib/iotools/solaranywhere.py
index 2a61505..0bd7fc1 100644
--- a/pvlib/iotools/solaranywhere.py
+++ b/pvlib/iotools/solaranywhere.py
@@ -185,7 +185,7 @@ def get_solaranywhere(latitude, longitude, api_key, start=None, end=None,
 
     # The SolarAnywhere API is asynchronous, hence a second request is
     # necessary to retrieve the data (WeatherDataResult).
-    start_time = time.time()  # Current time in seconds since the Epoch
+    start_time = time.monotonic()  # unaffected by clock adjustments
     # Attempt to retrieve results until the max response time has been exceeded
     while True:
         results = requests.get(url+'/WeatherDataResult/'+weather_request_id, headers=headers)  # noqa: E501
@@ -194,7 +194,7 @@ def get_solaranywhere(latitude, longitude, api_key, start=None, end=None,
             if results_json['WeatherDataResults'][0]['Status'] == 'Failure':
                 raise RuntimeError(results_json['WeatherDataResults'][0]['ErrorMessages'][0]['Message'])  # noqa: E501
             break
-        elif (time.time()-start_time) > timeout:
+        elif (time.monotonic()-start_time) > timeout:
             raise TimeoutError('Time exceeded the `timeout`.')
         time.sleep(5)  # Sleep for 5 seconds before each data retrieval attempt
 
-- 
2.43.0


From d08c4b51ac6aa0f48a0653244bc5b4be7198a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 09/37] fix: raise the service's error when polling or fetching
 fails in get_era5

---
 pvlib/iotools/era5.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvlib/iotools/era5.py b/pvlib/iotools/era5.py
index 5465039..59a6d27 100644
--- a/pvlib/iotools/era5.py
+++ b/pvlib/iotools/era5.py
@@ -156,6 +156,8 @@ def get_era5(latitude, longitude, start, end, variables, api_key,
     while True:
         response = requests.get(url + slug, headers=headers, timeout=timeout)
         poll_response = response.json()
+        if not response.ok:
+            raise Exception(poll_response)
         job_status = poll_response['status']
 
         if job_status == 'successful':
@@ -180,10 +182,13 @@ def get_era5(latitude, longitude, start, end, variables, api_key,
     slug = "jobs/" + job_id + "/results"
     response = requests.get(url + slug, headers=headers, timeout=timeout)
     results_response = response.json()
+    if not response.ok:
+        raise Exception(results_response)
     download_url = results_response['asset']['value']['href']
 
     # Step 4: finally, download our dataset.  it's a zipfile of one CSV
     response = requests.get(download_url, timeout=timeout)
+    response.raise_for_status()
     zipbuffer = BytesIO(response.content)
     archive = zipfile.ZipFile(zipbuffer)
     filename = archive.filelist[0].filename
-- 
2.43.0


From e19b60dfaa5556b8dded51068ea15756b74878db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 10/37] fix: pass map_variables on in get_surfrad

---
 pvlib/iotools/surfrad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/surfrad.py b/pvlib/iotools/surfrad.py
index 948ec5e..4d7bee9 100644
--- a/pvlib/iotools/surfrad.py
+++ b/pvlib/iotools/surfrad.py
@@ -259,7 +259,7 @@ def get_surfrad(station, start, end, map_variables=True,
     for f in filenames:
         try:
             dfi, file_metadata = read_surfrad(url + f,
-                                              map_variables=VARIABLE_MAP)
+                                              map_variables=map_variables)
             dfs.append(dfi)
 
         except urllib.error.HTTPError:
-- 
2.43.0


From d6eba0760195700988d503af745f9380dbfd8159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 11/37] fix: keep the name of a data element that equals the
 year in read_srml

---
 pvlib/iotools/srml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvlib/iotools/srml.py b/pvlib/iotools/srml.py
index c9b630e..7b78149 100644
--- a/pvlib/iotools/srml.py
+++ b/pvlib/iotools/srml.py
@@ -66,6 +66,10 @@ def read_srml(filename, map_variables=True):
     data = _format_index(tsv_data)
     # Drop day of year and time columns
     data = data[data.columns[2:]]
+    # If a data element number equals the year in the header (e.g. 2010),
+    # pandas has renamed its column to avoid duplicates
+    year = tsv_data.columns[1]
+    data = data.rename(columns={year + '.1': year})
 
     if map_variables:
         data = data.rename(columns=_map_columns)
-- 
2.43.0


From 8dbc000fb362c07deeac7368da00362b9100eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 12/37] fix: recognise Madison files by file name, not by
 directory, in read_solrad

---
 pvlib/iotools/solrad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/solrad.py b/pvlib/iotools/solrad.py
index f4d446f..b44217d 100644
--- a/pvlib/iotools/solrad.py
+++ b/pvlib/iotools/solrad.py
@@ -4,6 +4,7 @@ import pandas as pd
 import warnings
 import requests
 import io
+import os
 
 # pvlib conventions
 BASE_HEADERS = (
@@ -96,7 +97,7 @@ def read_solrad(filename):
        Program. Bull. Amer. Meteor. Soc., 77, 2857-2864.
        :doi:`10.1175/1520-0477(1996)077<2857:TNISIS>2.0.CO;2`
     """
-    if 'msn' in str(filename):
+    if 'msn' in os.path.basename(str(filename)):
         names = MADISON_HEADERS
         widths = MADISON_WIDTHS
         dtypes = MADISON_DTYPES
-- 
2.43.0


From 769f79a2a5b324b3707b4619fcc3ecde1fa846ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 13/37] fix: close the file or connection in read_surfrad also
 when reading fails

---
 pvlib/iotools/surfrad.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pvlib/iotools/surfrad.py b/pvlib/iotools/surfrad.py
index 4d7bee9..b199d87 100644
--- a/pvlib/iotools/surfrad.py
+++ b/pvlib/iotools/surfrad.py
@@ -131,27 +131,27 @@ def read_surfrad(filename, map_variables=True):
     """
     if str(filename).startswith('ftp') or str(filename).startswith('http'):
         req = Request(filename)
-        response = urlopen(req)
-        file_buffer = io.StringIO(response.read().decode(errors='ignore'))
+        with urlopen(req) as response:
+            file_buffer = io.StringIO(response.read().decode(errors='ignore'))
     else:
         file_buffer = open(str(filename), 'r')
 
-    # Read and parse the first two lines to build the metadata dict.
-    station = file_buffer.readline()
-    file_metadata = file_buffer.readline()
-
-    metadata_list = file_metadata.split()
-    metadata = {}
-    metadata['name'] = station.strip()
-    metadata['latitude'] = float(metadata_list[0])
-    metadata['longitude'] = float(metadata_list[1])
-    metadata['elevation'] = float(metadata_list[2])
-    metadata['surfrad_version'] = int(metadata_list[-1])
-    metadata['tz'] = 'UTC'
-
-    data = pd.read_csv(file_buffer, sep=r'\s+',
-                       header=None, names=SURFRAD_COLUMNS)
-    file_buffer.close()
+    with file_buffer:
+        # Read and parse the first two lines to build the metadata dict.
+        station = file_buffer.readline()
+        file_metadata = file_buffer.readline()
+
+        metadata_list = file_metadata.split()
+        metadata = {}
+        metadata['name'] = station.strip()
+        metadata['latitude'] = float(metadata_list[0])
+        metadata['longitude'] = float(metadata_list[1])
+        metadata['elevation'] = float(metadata_list[2])
+        metadata['surfrad_version'] = int(metadata_list[-1])
+        metadata['tz'] = 'UTC'
+
+        data = pd.read_csv(file_buffer, sep=r'\s+',
+                           header=None, names=SURFRAD_COLUMNS)
 
     data = _format_index(data)
     missing = data == -9999.9
-- 
2.43.0


From 1b7f12e5df664737e2428db9c3e0f756b99f2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 14/37] fix: close the connection in read_epw also when the
 download fails

---
 pvlib/iotools/epw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/epw.py b/pvlib/iotools/epw.py
index 4355e76..9f2f3f7 100644
--- a/pvlib/iotools/epw.py
+++ b/pvlib/iotools/epw.py
@@ -224,8 +224,9 @@ def read_epw(filename, coerce_year=None):
             'Mozilla/5.0 (Macintosh; Intel Mac OS X 10_13_5) '
             'AppleWebKit/537.36 (KHTML, like Gecko) Chrome/67.0.3396.87 '
             'Safari/537.36')})
-        response = urlopen(request)
-        with io.StringIO(response.read().decode(errors='ignore')) as csvdata:
+        with urlopen(request) as response:
+            content = response.read().decode(errors='ignore')
+        with io.StringIO(content) as csvdata:
             data, meta = _parse_epw(csvdata, coerce_year)
 
     else:
-- 
2.43.0


From fcfc56e828a07ce89e3f218366b0a1786eb81f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 15/37] fix: close the connection in retrieve_sam also when the
 download fails

---
 pvlib/pvsystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index 02b16ed..6e5a3d7 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -2180,8 +2180,9 @@ def retrieve_sam(name=None, path=None):
             ) from None
     else:  # path is not None
         if path.lower().startswith("http"):  # URL check is not case-sensitive
-            response = urlopen(path)  # URL is case-sensitive
-            csvdata_path = io.StringIO(response.read().decode(errors="ignore"))
+            with urlopen(path) as response:  # URL is case-sensitive
+                csvdata_path = io.StringIO(
+                    response.read().decode(errors="ignore"))
         else:
             csvdata_path = path
     return _parse_raw_sam_df(csvdata_path)
-- 
2.43.0


From 779d25ddfac6dfee5160b1eb28dc88b3602384cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 16/37] fix: reject an incomplete data section in
 read_pvgis_tmy

---
 pvlib/iotools/pvgis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/pvgis.py b/pvlib/iotools/pvgis.py
index 61f3eff..4a7e5f9 100644
--- a/pvlib/iotools/pvgis.py
+++ b/pvlib/iotools/pvgis.py
@@ -601,8 +601,12 @@ def _parse_pvgis_tmy_csv(src):
     # first there's a header row:
     #    time(UTC),T2m,RH,G(h),Gb(n),Gd(h),IR(h),WS10m,WD10m,SP
     headers = [h.decode('utf-8').strip() for h in src.readline().split(b',')]
+    data_lines = [src.readline() for _ in range(8760)]
+    if data_lines[-1].strip() == b'':
+        raise ValueError('The data section is incomplete. File has probably '
+                         'been modified since being downloaded from PVGIS')
     data = pd.DataFrame(
-        [src.readline().split(b',') for _ in range(8760)], columns=headers)
+        [line.split(b',') for line in data_lines], columns=headers)
     dtidx = data['time(UTC)'].apply(lambda dt: dt.decode('utf-8'))
     dtidx = pd.to_datetime(dtidx, format='%Y%m%d:%H%M', utc=True)
     data = data.drop('time(UTC)', axis=1)
-- 
2.43.0


From b6bf478ee0ef520a65fbc94793a0086a0d01527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 17/37] fix: start every ModelChain run with an empty results
 container

Results of an earlier run that the current entry point does not compute
(for example solar_position, aoi or albedo of a previous run_model in
run_model_from_effective_irradiance) stayed in ModelChain.results next to
the new ones, and complete_irradiance failed after a run with a list of
one DataFrame.
---
 pvlib/modelchain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index cf7a5bf..ff64e0f 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -1176,6 +1176,8 @@ class ModelChain:
         self._check_multiple_input(weather)
         # Don't use ModelChain._assign_weather() here because it adds
         # temperature and wind-speed columns which we do not need here.
+        # discard the results of an earlier run
+        self.results = ModelChainResult()
         self.results.weather = _copy(weather)
         self._assign_times()
         self.results.solar_position = self.location.get_solarposition(
@@ -1339,6 +1341,8 @@ class ModelChain:
             if weather.get('temp_air') is None:
                 weather['temp_air'] = 20
             return weather
+        # discard the results of an earlier run
+        self.results = ModelChainResult()
         if isinstance(data, tuple):
             weather = tuple(_build_weather(wx) for wx in data)
             self._configure_results(per_array_data=True)
-- 
2.43.0


From a584ab2b118188ed98a9774b5f5d16b0d2a00afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 18/37] fix: do not modify a user's DC results in place when
 applying losses

pvwatts_losses and dc_ohms_from_percent changed the object a user-supplied
dc_model had assigned to results.dc, so that losses were applied twice when
that model returned the same object again.
---
 pvlib/modelchain.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index ff64e0f..780e1a7 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -1050,15 +1050,18 @@ class ModelChain:
                 pvsystem.dc_ohmic_losses(Rw, df['i_mp'])
                 for Rw, df in zip(Rw, self.results.dc)
             )
-            for df, loss in zip(self.results.dc, self.results.dc_ohmic_losses):
-                df['p_mp'] = df['p_mp'] - loss
+            self.results.dc = tuple(
+                df.assign(p_mp=df['p_mp'] - loss)
+                for df, loss in zip(self.results.dc,
+                                    self.results.dc_ohmic_losses)
+            )
         else:
             Rw = self.system.dc_ohms_from_percent()
             self.results.dc_ohmic_losses = pvsystem.dc_ohmic_losses(
                 Rw, self.results.dc['i_mp']
             )
-            self.results.dc['p_mp'] = (self.results.dc['p_mp']
-                                       - self.results.dc_ohmic_losses)
+            self.results.dc = self.results.dc.assign(
+                p_mp=self.results.dc['p_mp'] - self.results.dc_ohmic_losses)
         return self
 
     def no_dc_ohmic_loss(self):
@@ -1089,10 +1092,10 @@ class ModelChain:
     def pvwatts_losses(self):
         self.results.losses = (100 - self.system.pvwatts_losses()) / 100.
         if isinstance(self.results.dc, tuple):
-            for dc in self.results.dc:
-                dc *= self.results.losses
+            self.results.dc = tuple(
+                dc * self.results.losses for dc in self.results.dc)
         else:
-            self.results.dc *= self.results.losses
+            self.results.dc = self.results.dc * self.results.losses
         return self
 
     def no_extra_losses(self):
-- 
2.43.0


From c1a989d9010280352025b8e297c0aa21f14b68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 19/37] fix: choose the irradiance for cell temperature per
 array

If one array's data had no poa_global, the poa_global given for the other
arrays was ignored and their cell temperature calculated from effective
irradiance.
---
 pvlib/modelchain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 780e1a7..a7683c6 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -2009,7 +2009,10 @@ def _irrad_for_celltemp(total_irrad, effective_irradiance):
         if all('poa_global' in df for df in total_irrad):
             return _tuple_from_dfs(total_irrad, 'poa_global')
         else:
-            return effective_irradiance
+            # each array on its own, data may differ between arrays
+            return tuple(
+                df['poa_global'] if 'poa_global' in df else eff
+                for df, eff in zip(total_irrad, effective_irradiance))
     else:
         if 'poa_global' in total_irrad:
             return total_irrad['poa_global']
-- 
2.43.0


From de09067087f22a26a80cf6676634be34956754df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 20/37] fix: use the albedo given for an array although others
 have none

If one element of the weather tuple had no albedo column, the albedo given
for the other arrays was ignored.
---
 pvlib/modelchain.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index a7683c6..0bf2e41 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -1250,9 +1250,14 @@ class ModelChain:
         """
         Get albedo from weather
         """
-        try:
-            self.results.albedo = _tuple_from_dfs(weather, 'albedo')
-        except KeyError:
+        if isinstance(weather, tuple):
+            # each array on its own, data may differ between arrays
+            self.results.albedo = tuple(
+                w['albedo'] if 'albedo' in w else a.albedo
+                for w, a in zip(weather, self.system.arrays))
+        elif 'albedo' in weather:
+            self.results.albedo = weather['albedo']
+        else:
             self.results.albedo = tuple([
                 a.albedo for a in self.system.arrays])
         return self
-- 
2.43.0


From 59b74ea657861327c42ed4fb17f3a1949b21ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 21/37] fix: do not let later records change the first value of
 fully_covered_nrel

The time step used for the first record was inferred from the whole index,
so that a gap anywhere later in the record changed the first value and with
it the snow coverage up to the next snowfall. Infer it from the first three
time stamps.
---
 pvlib/snow.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/snow.py b/pvlib/snow.py
index b78a93a..a641d74 100644
--- a/pvlib/snow.py
+++ b/pvlib/snow.py
@@ -56,9 +56,10 @@ def fully_covered_nrel(snowfall, snow_depth=None, threshold_snowfall=1.,
     '''
     timestep = _time_delta_in_hours(snowfall.index)
     hourly_snow_rate = snowfall / timestep
-    # if we can infer a time frequency, use first snowfall value
+    # if we can infer a time frequency, use first snowfall value.  Infer it
+    # from the first records, so that later ones do not change the first value
     # otherwise the first snowfall value is ignored
-    freq = pd.infer_freq(snowfall.index)
+    freq = pd.infer_freq(snowfall.index[:3])
     if freq is not None:
         timedelta = pd.tseries.frequencies.to_offset(freq) / pd.Timedelta('1h')
         hourly_snow_rate.iloc[0] = snowfall.iloc[0] / timedelta
-- 
2.43.0


From a454b24dfbc3104e9f0606e978cff3e93a69109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 22/37] fix: bind the models of a copied ModelChain to the copy

copy.copy(mc) shared the models bound to mc, so that running the copy ran
the models of mc on the results (and with the options) of mc.
---
 pvlib/modelchain.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 0bf2e41..d51e514 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -6,8 +6,10 @@ library. With great power comes great responsibility: users should take
 the time to read the source code for the module.
 """
 
+import copy
 from functools import partial
 import itertools
+from types import MethodType
 import warnings
 import pandas as pd
 from dataclasses import dataclass, field
@@ -567,6 +569,21 @@ class ModelChain:
             **config
         )
 
+    def __copy__(self):
+        # The models are bound to the ModelChain they work on, so a copy
+        # needs models of its own, and its own results to put theirs in.
+        new = self.__class__.__new__(self.__class__)
+        new.__dict__.update(self.__dict__)
+        for name, value in self.__dict__.items():
+            if isinstance(value, MethodType) and value.__self__ is self:
+                new.__dict__[name] = MethodType(value.__func__, new)
+            elif isinstance(value, partial) and value.args and \
+                    value.args[0] is self:
+                new.__dict__[name] = partial(value.func, new, *value.args[1:],
+                                             **value.keywords)
+        new.results = copy.copy(self.results)
+        return new
+
     def __repr__(self):
         attrs = [
             'name', 'clearsky_model',
-- 
2.43.0


From 9c6bdd522774b29c75bebfefc5a55f37a71b8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 23/37] fix: accept a single record as Series in
 simplified_solis

---
 pvlib/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index da9d197..6c460eb 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -508,7 +508,7 @@ def _calc_taud(w, aod700, p):
             tds[1]*aod700 + tds[0] + tds[5]*np.log(p/p0))
 
     # be polite about matching the output type to the input type(s)
-    if len(taud) == 1:
+    if not isinstance(taud, pd.Series) and len(taud) == 1:
         taud = taud[0]
 
     return taud
-- 
2.43.0


From 615c86223faf10c4ca820af004de6b436b028b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 24/37] fix: let a missing value not fail the other records
 with brentq

---
 pvlib/singlediode.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 974d59d..26bca37 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -325,11 +325,11 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
         # arguments for possible array input
         def vd_from_brent(voc, v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                           breakdown_factor, breakdown_voltage, breakdown_exp):
-            return brentq(fv, 0.0, voc,
-                          args=(v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
-                                breakdown_factor, breakdown_voltage,
-                                breakdown_exp),
-                          **method_kwargs)
+            return _brentq(
+                fv, 0.0, voc,
+                args=(v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
+                      breakdown_factor, breakdown_voltage, breakdown_exp),
+                **method_kwargs)
 
         vd_from_brent_vectorized = np.vectorize(vd_from_brent)
         vd = vd_from_brent_vectorized(xp, voltage, *args)
@@ -497,11 +497,11 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
         # arguments for possible array input
         def vd_from_brent(voc, i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                           breakdown_factor, breakdown_voltage, breakdown_exp):
-            return brentq(fi, 0.0, voc,
-                          args=(i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
-                                breakdown_factor, breakdown_voltage,
-                                breakdown_exp),
-                          **method_kwargs)
+            return _brentq(
+                fi, 0.0, voc,
+                args=(i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
+                      breakdown_factor, breakdown_voltage, breakdown_exp),
+                **method_kwargs)
 
         vd_from_brent_vectorized = np.vectorize(vd_from_brent)
         vd = vd_from_brent_vectorized(xp, current, *args)
@@ -663,10 +663,10 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
         # break out arguments for numpy.vectorize to handle broadcasting
         vec_fun = np.vectorize(
             lambda voc, iph, isat, rs, rsh, gamma, d2mutau, NsVbi, vbr_a, vbr,
-            vbr_exp: brentq(fmpp, 0.0, voc,
-                            args=(iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
-                                  vbr_a, vbr, vbr_exp),
-                            **method_kwargs)
+            vbr_exp: _brentq(fmpp, 0.0, voc,
+                             args=(iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
+                                   vbr_a, vbr, vbr_exp),
+                             **method_kwargs)
         )
         vd = vec_fun(xp, *args)
     elif method == 'newton':
@@ -716,6 +716,17 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
         return bishop88(vd, *args)
 
 
+def _brentq(f, a, b, args, **kwargs):
+    """
+    ``scipy.optimize.brentq`` that returns NaN if an argument is NaN, instead
+    of raising ``ValueError``, so that a missing value does not prevent the
+    calculation of the other elements of an array.
+    """
+    if np.isnan((b, *args)).any():
+        return (np.nan, None) if kwargs.get('full_output') else np.nan
+    return brentq(f, a, b, args=args, **kwargs)
+
+
 def _shape_of_max_size(*args):
     return max(((np.size(a), np.shape(a)) for a in args),
                key=lambda t: t[0])[1]
-- 
2.43.0


From 849e6f7414246cb317230c8fb2cd693c421f2e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 25/37] fix: hour_angle on days with a daylight saving
 transition

---
 pvlib/solarposition.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 4441ed0..3762e00 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1454,13 +1454,16 @@ def _times_to_hours_after_local_midnight(times):
     #   11:59pm -> 1:00am - results in a nonexistent midnight
     #   12:59am -> 12:00am - results in an ambiguous midnight
     # We remove the timezone before normalizing for this reason.
-    naive_normalized_times = times.tz_localize(None).normalize()
+    naive_times = times.tz_localize(None)
+    naive_normalized_times = naive_times.normalize()
 
-    # Use Pandas functionality for shifting nonexistent times forward
-    normalized_times = naive_normalized_times.tz_localize(
+    # An ambiguous midnight raises
+    naive_normalized_times.tz_localize(
         times.tz, nonexistent='shift_forward', ambiguous='raise')
 
-    hrs = (times - normalized_times) / pd.Timedelta('1h')
+    # The hours the local clock shows, not the hours elapsed since midnight:
+    # these differ after a DST shift, and the UTC offset belongs to the clock.
+    hrs = (naive_times - naive_normalized_times) / pd.Timedelta('1h')
 
     # ensure array return instead of a version-dependent pandas <T>Index
     return np.array(hrs)
-- 
2.43.0


From 28ea2821bf29184ef787bee991fa83e4d6405636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:37 +0000
Subject: [PATCH 26/37] fix: sun_rise_set_transit_geometric on days with a
 daylight saving transition

---
 pvlib/solarposition.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 3762e00..f6659b0 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1438,9 +1438,12 @@ def _local_times_from_hours_since_midnight(times, hours):
     if not times.tz:
         raise ValueError('times must be localized')
 
-    # normalize local times to previous local midnight and add the hours until
-    # sunrise, sunset, and transit
-    return times.normalize() + pd.to_timedelta(hours, unit='h')
+    # go back to the previous local midnight, on a clock with the UTC offset
+    # of the given times (the offset at midnight differs on days with a DST
+    # shift), and add the hours until sunrise, sunset, and transit
+    naive_times = times.tz_localize(None)
+    since_midnight = naive_times - naive_times.normalize()
+    return times - since_midnight + pd.to_timedelta(hours, unit='h')
 
 
 def _times_to_hours_after_local_midnight(times):
-- 
2.43.0


From 1255b22e943e9a0ee92ddfeaa3caf33e528d5da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 27/37] fix: local day of sun_rise_set_transit_spa where local
 noon is on another UTC day

---
 pvlib/solarposition.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index f6659b0..edb812f 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -471,6 +471,16 @@ def sun_rise_set_transit_spa(times, latitude, longitude, how='numpy',
     transit, sunrise, sunset = spa.transit_sunrise_sunset(
         unixtime, lat, lon, delta_t, numthreads)
 
+    # The transit SPA returns is on the given day in UTC.  Where local noon is
+    # on another UTC day (e.g., UTC+13), that is the transit of the previous or
+    # next local day, and SPA must be given the UTC day of the local noon.
+    transit_day = _datetime_to_unixtime(
+        pd.to_datetime(transit*1e9, unit='ns', utc=True).tz_convert(tzinfo)
+        .tz_localize(None).normalize().tz_localize('UTC'))
+    if np.any(transit_day != unixtime):
+        transit, sunrise, sunset = spa.transit_sunrise_sunset(
+            unixtime - (transit_day - unixtime), lat, lon, delta_t, numthreads)
+
     # arrays are in seconds since epoch format, need to conver to timestamps
     transit = pd.to_datetime(transit*1e9, unit='ns', utc=True).tz_convert(
         tzinfo).tolist()
-- 
2.43.0


From a4f4b93c96ab5084bee6d58c488e2f2e7ee1818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 28/37] fix: local day of sun_rise_set_transit_geometric west
 of the date line

---
 pvlib/solarposition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index edb812f..fbe1bc8 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1540,6 +1540,12 @@ def sun_rise_set_transit_geometric(times, latitude, longitude, declination,
     sunset_hour = _hour_angle_to_hours(
         times, sunset_angle, longitude, equation_of_time)
     transit_hour = _hour_angle_to_hours(times, 0, longitude, equation_of_time)
+    # the local clock and the longitude can be on either side of the date line
+    # (e.g., UTC+13): the transit belongs to the local day of times
+    days_off = 24. * np.floor(transit_hour / 24.)
+    sunrise_hour = sunrise_hour - days_off
+    sunset_hour = sunset_hour - days_off
+    transit_hour = transit_hour - days_off
     sunrise = _local_times_from_hours_since_midnight(times, sunrise_hour)
     sunset = _local_times_from_hours_since_midnight(times, sunset_hour)
     transit = _local_times_from_hours_since_midnight(times, transit_hour)
-- 
2.43.0


From 3b5eb45219e1f4feb65bb5358a2f71fa11f6f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 29/37] fix: daily and local-time records in fully_covered_nrel

---
 pvlib/snow.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pvlib/snow.py b/pvlib/snow.py
index a641d74..5c78c5e 100644
--- a/pvlib/snow.py
+++ b/pvlib/snow.py
@@ -56,14 +56,11 @@ def fully_covered_nrel(snowfall, snow_depth=None, threshold_snowfall=1.,
     '''
     timestep = _time_delta_in_hours(snowfall.index)
     hourly_snow_rate = snowfall / timestep
-    # if we can infer a time frequency, use first snowfall value.  Infer it
-    # from the first records, so that later ones do not change the first value
+    # if the first records are at equal intervals, use first snowfall value
     # otherwise the first snowfall value is ignored
-    freq = pd.infer_freq(snowfall.index[:3])
-    if freq is not None:
-        timedelta = pd.tseries.frequencies.to_offset(freq) / pd.Timedelta('1h')
-        hourly_snow_rate.iloc[0] = snowfall.iloc[0] / timedelta
-    else:  # can't infer frequency from index
+    if len(timestep) > 2 and timestep.iloc[1] == timestep.iloc[2] > 0:
+        hourly_snow_rate.iloc[0] = snowfall.iloc[0] / timestep.iloc[1]
+    else:  # the interval before the first record is not known
         hourly_snow_rate.iloc[0] = 0  # replaces NaN
     covered = (hourly_snow_rate > threshold_snowfall)
     # no coverage when no snow on the ground
-- 
2.43.0


From 8859c0aaa67ace31decdb22e76c276d89e00117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 30/37] fix: PVLIB_USE_NUMBA set by the user is kept when spa
 is reloaded

_spa_python_import removed the variable from the environment, whatever it
was before, and left it changed if loading the module failed.
---
 pvlib/solarposition.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index fbe1bc8..afd1fd2 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -249,22 +249,32 @@ def _spa_python_import(how):
         # the PVLIB_USE_NUMBA env variable is used to tell the module
         # to not compile with numba
         warnings.warn('Reloading spa to use numpy')
-        os.environ['PVLIB_USE_NUMBA'] = '0'
-        spa = reload(spa)
-        del os.environ['PVLIB_USE_NUMBA']
+        spa = _spa_reload(spa, '0')
     elif how == 'numba' and not using_numba:
         # The spa module was not compiled to numba code, so set
         # PVLIB_USE_NUMBA so it does compile to numba on reload.
         warnings.warn('Reloading spa to use numba')
-        os.environ['PVLIB_USE_NUMBA'] = '1'
-        spa = reload(spa)
-        del os.environ['PVLIB_USE_NUMBA']
+        spa = _spa_reload(spa, '1')
     elif how != 'numba' and how != 'numpy':
         raise ValueError("how must be either 'numba' or 'numpy'")
 
     return spa
 
 
+def _spa_reload(spa, use_numba):
+    """Reload spa.py with PVLIB_USE_NUMBA set to use_numba"""
+    previous = os.environ.get('PVLIB_USE_NUMBA')
+    try:
+        os.environ['PVLIB_USE_NUMBA'] = use_numba
+        return reload(spa)
+    finally:
+        # leave the environment as it was
+        if previous is None:
+            os.environ.pop('PVLIB_USE_NUMBA', None)
+        else:
+            os.environ['PVLIB_USE_NUMBA'] = previous
+
+
 def _datetime_to_unixtime(dtindex):
     # convert a pandas datetime index to unixtime, making sure to handle
     # different pandas units (ns, us, etc) and time zones correctly
-- 
2.43.0


From 125254540e80e03b22113c9be9a1154d3c886e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 31/37] fix: switching the spa implementation while other
 threads use it

Reloading pvlib.spa in place changed the functions a calculation in another
thread was using, and an interrupted reload left a mixture of numpy and numba
functions behind.
---
 pvlib/solarposition.py | 56 +++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index afd1fd2..519a773 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -8,21 +8,18 @@ Calculate the solar position using a variety of methods/packages.
 # Tony Lorenzo (@alorenzo175), University of Arizona, 2015
 # Cliff hansen (@cwhanse), Sandia National Laboratories, 2018
 
-import os
 import datetime as dt
-try:
-    from importlib import reload
-except ImportError:
-    try:
-        from imp import reload
-    except ImportError:
-        pass
+import importlib.util
+import os
+import sys
+import threading
 
 import numpy as np
 import pandas as pd
 import scipy.optimize as so
 import warnings
 
+import pvlib
 from pvlib import atmosphere, tools
 from pvlib.tools import datetime_to_djd, djd_to_datetime
 
@@ -249,30 +246,45 @@ def _spa_python_import(how):
         # the PVLIB_USE_NUMBA env variable is used to tell the module
         # to not compile with numba
         warnings.warn('Reloading spa to use numpy')
-        spa = _spa_reload(spa, '0')
+        spa = _spa_reload('0')
     elif how == 'numba' and not using_numba:
         # The spa module was not compiled to numba code, so set
         # PVLIB_USE_NUMBA so it does compile to numba on reload.
         warnings.warn('Reloading spa to use numba')
-        spa = _spa_reload(spa, '1')
+        spa = _spa_reload('1')
     elif how != 'numba' and how != 'numpy':
         raise ValueError("how must be either 'numba' or 'numpy'")
 
     return spa
 
 
-def _spa_reload(spa, use_numba):
-    """Reload spa.py with PVLIB_USE_NUMBA set to use_numba"""
-    previous = os.environ.get('PVLIB_USE_NUMBA')
-    try:
-        os.environ['PVLIB_USE_NUMBA'] = use_numba
-        return reload(spa)
-    finally:
-        # leave the environment as it was
-        if previous is None:
-            os.environ.pop('PVLIB_USE_NUMBA', None)
-        else:
-            os.environ['PVLIB_USE_NUMBA'] = previous
+# held while PVLIB_USE_NUMBA is changed and spa is loaded
+_SPA_RELOAD_LOCK = threading.Lock()
+
+
+def _spa_reload(use_numba):
+    """
+    Load spa.py with PVLIB_USE_NUMBA set to use_numba.
+
+    The module in use is not reloaded in place but replaced when the new one
+    is complete: another thread may be calculating with it, and an
+    interrupted reload would leave a mixture of both.
+    """
+    with _SPA_RELOAD_LOCK:
+        previous = os.environ.get('PVLIB_USE_NUMBA')
+        try:
+            os.environ['PVLIB_USE_NUMBA'] = use_numba
+            spec = importlib.util.find_spec('pvlib.spa')
+            spa = importlib.util.module_from_spec(spec)
+            spec.loader.exec_module(spa)
+        finally:
+            # leave the environment as it was
+            if previous is None:
+                os.environ.pop('PVLIB_USE_NUMBA', None)
+            else:
+                os.environ['PVLIB_USE_NUMBA'] = previous
+        sys.modules['pvlib.spa'] = pvlib.spa = spa
+    return spa
 
 
 def _datetime_to_unixtime(dtindex):
-- 
2.43.0


From 7fa149ff1663d60053b97b7116b97a98a728b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 32/37] fix: raise the errors of the worker threads in
 solar_position_numba

An exception in one of the threads (out of memory, a text in the input) was
only printed, and the uninitialised part of the result array returned as if it
had been calculated.
---
 pvlib/spa.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pvlib/spa.py b/pvlib/spa.py
index fe072b2..b2fa5d4 100644
--- a/pvlib/spa.py
+++ b/pvlib/spa.py
@@ -957,12 +957,23 @@ def solar_position_numba(unixtime, lat, lon, elev, pressure, temp, delta_t,
         for a0, a1, a2 in zip(split0, split1, split2)
     ]
     # Spawn one thread per chunk
-    threads = [threading.Thread(target=solar_position_loop, args=chunk)
+    errors = []
+
+    def calculate_chunk(*chunk):
+        try:
+            solar_position_loop(*chunk)
+        except BaseException as e:
+            errors.append(e)
+
+    threads = [threading.Thread(target=calculate_chunk, args=chunk)
                for chunk in chunks]
     for thread in threads:
         thread.start()
     for thread in threads:
         thread.join()
+    if errors:
+        # a chunk of the result was not calculated
+        raise errors[0]
     return result
 
 
-- 
2.43.0


From 9a5d6f444700d80c87e88b180e373d14112ec3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:25 +0000
Subject: [PATCH 33/37] fix: give every array its own copy of the default
 temperature model parameters

PVSystem and Array without temperature_model_parameters got the dict of
TEMPERATURE_MODEL_PARAMETERS itself, so that adapting the parameters of
one array changed the defaults and every other array.
---
 pvlib/temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/temperature.py b/pvlib/temperature.py
index 55222c0..0f7d98d 100644
--- a/pvlib/temperature.py
+++ b/pvlib/temperature.py
@@ -45,7 +45,7 @@ Retrieve the open rack glass-polymer configuration for SAPM::
 def _temperature_model_params(model, parameter_set):
     try:
         params = TEMPERATURE_MODEL_PARAMETERS[model]
-        return params[parameter_set]
+        return params[parameter_set].copy()
     except KeyError:
         msg = ('{} is not a named set of parameters for the {} cell'
                ' temperature model.'
-- 
2.43.0


From 0e8b63d01e6fd86abd15b297df2803c8226d7bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 34/37] fix: count whole days in the sampling interval

prilliman and detect_clearsky took the sampling interval from
Timedelta.seconds, which leaves out the days: daily records raised
ZeroDivisionError, and records every 25 hours were treated as hourly.
---
 pvlib/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/tools.py b/pvlib/tools.py
index 1d9db70..44e0877 100644
--- a/pvlib/tools.py
+++ b/pvlib/tools.py
@@ -433,7 +433,7 @@ def _get_sample_intervals(times, win_length):
     # determine if we can proceed
     if times.inferred_freq and len(np.unique(deltas)) == 1:
         sample_interval = times[1] - times[0]
-        sample_interval = sample_interval.seconds / 60  # in minutes
+        sample_interval = sample_interval.total_seconds() / 60  # in minutes
         samples_per_window = int(win_length / sample_interval)
         return sample_interval, samples_per_window
     else:
-- 
2.43.0


From 1edc152563a7f6f37491543e6ed83e39152048c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:58 +0000
Subject: [PATCH 35/37] fix: daily records in local time are regular

prilliman and detect_clearsky rejected daily records written in a local
time zone with a change of the clocks in between; the same records in UTC
are accepted.
---
 pvlib/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvlib/tools.py b/pvlib/tools.py
index 44e0877..3cbe167 100644
--- a/pvlib/tools.py
+++ b/pvlib/tools.py
@@ -428,6 +428,9 @@ def _get_sample_intervals(times, win_length):
     """ Calculates time interval and samples per window for Reno-style clear
     sky detection functions
     """
+    if times.tz is not None:
+        # daily records are not regular in local time when the clocks change
+        times = times.tz_convert('UTC')
     deltas = np.diff(times.values) / np.timedelta64(1, '60s')
 
     # determine if we can proceed
-- 
2.43.0


From 82403dd947fcbcdf8a950c30d8b205fc8b6c0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:15 +0000
Subject: [PATCH 36/37] fix: get_solaranywhere returned the body of an error
 status reply as data

---
 pvlib/iotools/solaranywhere.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/iotools/solaranywhere.py b/pvlib/iotools/solaranywhere.py
index 0bd7fc1..7f69420 100644
--- a/pvlib/iotools/solaranywhere.py
+++ b/pvlib/iotools/solaranywhere.py
@@ -193,6 +193,7 @@ def get_solaranywhere(latitude, longitude, api_key, start=None, end=None,
         if results_json.get('Status') == 'Done':
             if results_json['WeatherDataResults'][0]['Status'] == 'Failure':
                 raise RuntimeError(results_json['WeatherDataResults'][0]['ErrorMessages'][0]['Message'])  # noqa: E501
+            results.raise_for_status()
             break
         elif (time.monotonic()-start_time) > timeout:
             raise TimeoutError('Time exceeded the `timeout`.')
-- 
2.43.0


From 8988a9e5fd7dd10d5a97c17544688931837ad660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:41 +0000
Subject: [PATCH 37/37] fix: read_surfrad keeps missing values missing when the
 last value is torn

---
 pvlib/iotools/surfrad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/surfrad.py b/pvlib/iotools/surfrad.py
index b199d87..6fcd006 100644
--- a/pvlib/iotools/surfrad.py
+++ b/pvlib/iotools/surfrad.py
@@ -151,7 +151,8 @@ def read_surfrad(filename, map_variables=True):
         metadata['tz'] = 'UTC'
 
         data = pd.read_csv(file_buffer, sep=r'\s+',
-                           header=None, names=SURFRAD_COLUMNS)
+                           header=None, names=SURFRAD_COLUMNS,
+                           na_values=-9999.9)
 
     data = _format_index(data)
     missing = data == -9999.9
-- 
2.43.0

