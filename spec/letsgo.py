"""Pipelines and projects: stage order, where results go, creating and loading."""
from datetime import datetime


# ================================================================ creating and loading projects (P30)
@ensures("P30 P29", "letsgo.ProjectCreator.run", view="effects", inline=["letsgo.ProjectCreator._make_subdirs"])
def create_project(self):
    meta = self.dir_path / "resistics.json"
    if self.dir_path.exists() and is_dir(self.dir_path) and meta.exists():
        raise ProjectCreateError(self.dir_path, "")
    if self.dir_path.exists():
        assert_dir(self.dir_path)
    else:
        self.dir_path.mkdir(parents=True)
    for x in ["time", "calibrate", "spectra", "evals", "features", "masks", "results", "images"]:
        if not (self.dir_path / x).exists():
            (self.dir_path / x).mkdir()
    self.metadata.write(meta)


@ensures("P30 P29", "letsgo.ProjectCreator.run")
def create_refuses(self):
    meta = self.dir_path / "resistics.json"
    if self.dir_path.exists() and is_dir(self.dir_path) and meta.exists():
        raise ProjectCreateError(self.dir_path, "")
    if self.dir_path.exists():
        assert_dir(self.dir_path)
    return None


@ensures("P30", "letsgo.new", view="effects", opaque=["letsgo.ProjectCreator.run"])
def new_project(dir_path, proj_info):
    if isinstance(dir_path, str):
        dir_path = Path(dir_path)
    ProjectCreator(dir_path=dir_path, metadata=ProjectMetadata(**proj_info)).run()


@ensures("P30", "letsgo.new", opaque=["letsgo.ProjectCreator.run"])
def new_project_says_so(dir_path, proj_info):
    if isinstance(dir_path, str):
        dir_path = Path(dir_path)
    ProjectCreator(dir_path=dir_path, metadata=ProjectMetadata(**proj_info)).run()
    return True


def measurement_of(site_name, meas_dir, config):
    for reader in config.time_readers:
        try:
            m = reader.run(dir_path=meas_dir, metadata_only=True)
            return Measurement(site_name=site_name, dir_path=meas_dir, metadata=m, reader=reader)
        except Exception:
            pass
    return None


@ensures("P30 P19", "letsgo.ProjectLoader._load_measurement")
def load_measurement(self, site_name, meas_dir, config):
    return measurement_of(site_name, meas_dir, config)


@ensures("P30 P19", "letsgo.ProjectLoader._load_site", opaque=["letsgo.ProjectLoader._load_measurement"])
def load_site(self, site_dir, config):
    found = {}
    for x in dir_subdirs(site_dir):
        m = self._load_measurement(site_dir.name, x, config)
        if m is not None:
            found[x.name] = m
    if len(found) > 0:
        begin = min([m.metadata.first_time for m in found.values()])
        end = max([m.metadata.last_time for m in found.values()])
    else:
        begin = datetime.now()
        end = datetime.now()
    return Site(dir_path=site_dir, begin_time=begin, end_time=end, measurements=found)


@ensures("P30 P29", "letsgo.ProjectLoader._check_subdirs")
def check_subdirs(self):
    for x in PROJ_DIRS.values():
        assert_dir(self.dir_path / x)
    return True


@ensures("P30 P29 P19", "letsgo.ProjectLoader.run", opaque=["letsgo.ProjectLoader._load_site"])
def load_project(self, config):
    assert_dir(self.dir_path)
    if not (self.dir_path / "resistics.json").exists():
        raise ProjectLoadError(self.dir_path, "")
    for x in PROJ_DIRS.values():
        assert_dir(self.dir_path / x)
    metadata = ProjectMetadata.parse_file(self.dir_path / "resistics.json")
    sites = {}
    for x in dir_subdirs(self.dir_path / "time"):
        sites[x.name] = self._load_site(x, config)
    if len(sites) > 0:
        begin = min([x.begin_time for x in sites.values()])
        end = max([x.end_time for x in sites.values()])
    else:
        begin = datetime.now()
        end = datetime.now()
    return Project(dir_path=self.dir_path, metadata=metadata, begin_time=begin, end_time=end, sites=sites)


LOAD = ["letsgo.ProjectLoader.run"]


def environment(dir_path, config):
    if config is None:
        config = Configuration(name="default")
    if isinstance(dir_path, str):
        dir_path = Path(dir_path)
    return ResisticsEnvironment(proj=ProjectLoader(dir_path=dir_path).run(config), config=config)


@ensures("P30", "letsgo.load", opaque=LOAD)
def load_env(dir_path, config):
    return environment(dir_path, config)


@ensures("P30", "letsgo.reload", opaque=LOAD)
def reload_env(resenv):
    return ResisticsEnvironment(proj=ProjectLoader(dir_path=resenv.proj.dir_path).run(resenv.config), config=resenv.config)


@ensures("P30", "config.get_default_configuration")
def default_configuration():
    return Configuration(
        name="default",
        time_readers=[TimeReaderAscii(), TimeReaderNumpy()],
        time_processors=[InterpolateNans(), RemoveMean()],
        dec_setup=DecimationSetup(),
        decimator=Decimator(),
        win_setup=WindowSetup(),
        windower=Windower(),
        fourier=FourierTransform(),
        spectra_processors=[],
        evals=EvaluationFreqs(),
        sensor_calibrator=SensorCalibrator(readers=[SensorCalibrationJSON()]),
        tf=ImpedanceTensor(),
        regression_preparer=RegressionPreparerGathered(),
        solver=SolverScikitTheilSen(),
    )


# ================================================================ stages (P26)


def time_processed(config, x):
    for p in config.time_processors:
        x = p.run(x)
    return x


def spectra_processed(config, x):
    for p in config.spectra_processors:
        x = p.run(x)
    return x


@ensures("P26", "letsgo.run_time_processors")
def run_time_processors(config, time_data):
    return time_processed(config, time_data)


@ensures("P26", "letsgo.run_decimation")
def run_decimation(config, time_data, dec_params):
    if dec_params is None:
        dec_params = config.dec_setup.run(time_data.metadata.fs)
    return config.decimator.run(dec_params, time_data)


def windowed(config, ref_time, x):
    return config.windower.run(ref_time, config.win_setup.run(x.metadata.n_levels, x.metadata.fs), x)


@ensures("P26 P14", "letsgo.run_windowing")
def run_windowing(config, ref_time, dec_data):
    return windowed(config, ref_time, dec_data)


@ensures("P26", "letsgo.run_fft")
def run_fft(config, win_data):
    return config.fourier.run(win_data)


@ensures("P26", "letsgo.run_spectra_processors")
def run_spectra_processors(config, spec_data):
    return spectra_processed(config, spec_data)


@ensures("P26", "letsgo.run_evals")
def run_evals(config, dec_params, spec_data):
    return config.evals.run(dec_params, spec_data)


@ensures("P26 P18", "letsgo.run_sensor_calibration")
def run_sensor_calibration(config, calibration_path, spec_data):
    return config.sensor_calibrator.run(calibration_path, spec_data)


@ensures("P26", "letsgo.run_regression_preparer")
def run_regression_preparer(config, gathered_data):
    return config.regression_preparer.run(config.tf, gathered_data)


@ensures("P26", "letsgo.run_solver")
def run_solver(config, reg_data):
    return config.solver.run(reg_data)


# ================================================================ pipelines (P26)
def read_any(dir_path, config):
    for reader in config.time_readers:
        try:
            return reader.run(dir_path)
        except Exception:
            pass
    raise TimeDataReadError(dir_path, "")


@ensures("P26 P29", "letsgo.quick_read")
def quick_read(dir_path, config):
    if config is None:
        config = Configuration(name="default")
    return read_any(dir_path, config)


QR = {"opaque": ["letsgo.quick_read"]}


def levels(config, x):
    dec_params = config.dec_setup.run(x.metadata.fs)
    return dec_params, config.decimator.run(dec_params, x)


@ensures("P26", "letsgo.quick_view", opaque=["letsgo.quick_read"])
def quick_view(dir_path, config, decimate, max_pts):
    if config is None:
        config = Configuration(name="default")
    x = time_processed(config, quick_read(dir_path, config))
    if not decimate:
        return x.plot(max_pts=max_pts)
    dec_params, dec = levels(config, x)
    return dec.plot(max_pts=max_pts)


@ensures("P26 P14", "letsgo.quick_spectra", **QR)
def quick_spectra(dir_path, config):
    if config is None:
        config = Configuration(name="default")
    raw = quick_read(dir_path, config)
    dec_params, dec = levels(config, time_processed(config, raw))
    return config.fourier.run(windowed(config, raw.metadata.first_time, dec))


@ensures("P26 P14", "letsgo.quick_tf", opaque=["letsgo.quick_read", "gather.QuickGather.run"])
def quick_tf(dir_path, config, calibration_path):
    if config is None:
        config = Configuration(name="default")
    raw = quick_read(dir_path, config)
    dec_params, dec = levels(config, time_processed(config, raw))
    spec = spectra_processed(config, config.fourier.run(windowed(config, raw.metadata.first_time, dec)))
    evals = config.evals.run(dec_params, spec)
    if calibration_path is not None:
        evals = config.sensor_calibrator.run(calibration_path, evals)
    g = QuickGather().run(dir_path, dec_params, config.tf, evals)
    return config.solver.run(config.regression_preparer.run(config.tf, g))


@ensures("P26 P04", "letsgo.process_time", view="effects")
def process_time(resenv, site_name, meas_name, out_site, out_meas, from_time, to_time):
    meas = resenv.proj.get_site(site_name).get_measurement(meas_name)
    x = meas.reader.run(meas.dir_path, metadata=meas.metadata, from_time=from_time, to_time=to_time)
    x = time_processed(resenv.config, x)
    TimeWriterNumpy().run(resenv.proj.dir_path / "time" / out_site / out_meas, x)


@ensures("P26 P04 P14", "letsgo.process_time_to_evals", view="effects")
def process_time_to_evals(resenv, site_name, meas_name):
    proj = resenv.proj
    config = resenv.config
    meas = proj.get_site(site_name).get_measurement(meas_name)
    x = time_processed(config, meas.reader.run(meas.dir_path, metadata=meas.metadata))
    dec_params, dec = levels(config, x)
    spec = spectra_processed(config, config.fourier.run(windowed(config, proj.metadata.ref_time, dec)))
    evals = config.sensor_calibrator.run(proj.dir_path / "calibrate", config.evals.run(dec_params, spec))
    SpectraDataWriter().run(proj.dir_path / "evals" / meas.site_name / config.name / meas.name, evals)


def solved(resenv, fs, out_site, in_site, cross_site, masks):
    proj = resenv.proj
    config = resenv.config
    sites = [out_site]
    if in_site is not None:
        sites.append(in_site)
    if cross_site is not None:
        sites.append(cross_site)
    selection = Selector().run(config.name, proj, sites, config.dec_setup.run(fs), masks)
    g = ProjectGather().run(config.name, proj, selection, config.tf, out_name=out_site, in_name=in_site, cross_name=cross_site)
    return config.solver.run(config.regression_preparer.run(config.tf, g))


GATHERING = ["gather.Selector.run", "gather.ProjectGather.run"]


@ensures("P26 P20", "letsgo.process_evals_to_tf", opaque=GATHERING)
def process_evals_to_tf(resenv, fs, out_site, in_site, cross_site, masks):
    s = solved(resenv, fs, out_site, in_site, cross_site, masks)
    s.file_info = ANY
    return s


@ensures("P26 P04", "letsgo.process_evals_to_tf", view="effects", opaque=GATHERING)
def stores_solution(resenv, fs, out_site, in_site, cross_site, masks, postfix):
    s = solved(resenv, fs, out_site, in_site, cross_site, masks)
    path = resenv.proj.dir_path / "results" / out_site / resenv.config.name
    if not path.exists():
        path.mkdir(parents=True)
    s.write(path / get_solution_name(fs, s.tf.name, s.tf.variation, postfix))


@ensures("P04 P26", "letsgo.get_solution")
def get_solution(resenv, site_name, config_name, fs, tf_name, tf_var, postfix):
    return Solution.parse_file(resenv.proj.dir_path / "results" / site_name / config_name / get_solution_name(fs, tf_name, tf_var, postfix))
