"""Declared settings and stored fields: names, value types, limits and defaults
(a setting that is not given takes the default listed here)."""


@settings("P28", "calibrate.CalibrationData")
class CalibrationData:
    file_path: Optional[Path]
    sensor: str = ''
    serial: Union[int, str]
    static_gain: float = 1
    magnitude_unit: str = 'mV/nT'
    frequency: List[float]
    magnitude: List[float]
    phase: List[float]
    n_samples: Optional[int] = None


@settings("P28", "calibrate.CalibrationReader")
class CalibrationReader:
    extension: Optional[str] = None


@settings("P28 P27", "calibrate.SensorCalibrationReader")
class SensorCalibrationReader:
    file_str: str = 'IC_$sensor$extension'


@settings("P28 P27", "calibrate.SensorCalibrationJSON")
class SensorCalibrationJSON:
    extension: str = '.json'


@settings("P28 P27", "calibrate.SensorCalibrationTXT")
class SensorCalibrationTXT:
    extension = '.TXT'


@settings("P18 P27", "calibrate.Calibrator")
class Calibrator:
    chans: Optional[List[str]] = None


@settings("P18", "calibrate.InstrumentCalibrator")
class InstrumentCalibrator:
    readers: List[InstrumentCalibrationReader]


@settings("P18 P27", "calibrate.SensorCalibrator")
class SensorCalibrator:
    readers: List[SensorCalibrationReader]


@settings("P02", "common.ResisticsFile")
class ResisticsFile:
    created_on_local: datetime = Field(default_factory=datetime.now)
    created_on_utc: datetime = Field(default_factory=datetime.utcnow)
    version: Optional[str] = Field(default_factory=get_version)


@settings("P02", "common.WriteableMetadata")
class WriteableMetadata:
    file_info: Optional[ResisticsFile] = None


@settings("P02", "common.Record")
class Record:
    time_local: datetime = Field(default_factory=datetime.now)
    time_utc: datetime = Field(default_factory=datetime.utcnow)
    creator: Dict[str, Any]
    messages: List[str]
    record_type: str


@settings("P02", "common.History")
class History:
    records: List[Record] = []


@settings("P25", "common.ResisticsProcess")
class ResisticsProcess:
    name: Optional[str]


@settings("P05 P27", "common.ResisticsWriter")
class ResisticsWriter:
    overwrite: bool = True


@settings("P26 P27 P30", "config.Configuration")
class Configuration:
    name: str
    time_readers: List[TimeReader] = [TimeReaderAscii(), TimeReaderNumpy()]
    time_processors: List[TimeProcess] = [InterpolateNans(), RemoveMean()]
    dec_setup: DecimationSetup = DecimationSetup()
    decimator: Decimator = Decimator()
    win_setup: WindowSetup = WindowSetup()
    windower: Windower = Windower()
    fourier: FourierTransform = FourierTransform()
    spectra_processors: List[SpectraProcess] = []
    evals: EvaluationFreqs = EvaluationFreqs()
    sensor_calibrator: Calibrator = SensorCalibrator(readers=[SensorCalibrationJSON()])
    tf: TransferFunction = ImpedanceTensor()
    regression_preparer: RegressionPreparerGathered = RegressionPreparerGathered()
    solver: Solver = SolverScikitTheilSen()


@settings("P12", "decimate.DecimationParameters")
class DecimationParameters:
    fs: float
    n_levels: int
    per_level: int
    min_samples: PositiveInt
    eval_freqs: List[float]
    dec_factors: List[int]
    dec_increments: Optional[List[int]] = None
    dec_fs: Optional[List[float]] = None


@settings("P12 P27", "decimate.DecimationSetup")
class DecimationSetup:
    n_levels: int = 8
    per_level: int = 5
    min_samples: int = 256
    div_factor: int = 2
    eval_freqs: Optional[List[float]] = None


@settings("P13", "decimate.DecimatedLevelMetadata")
class DecimatedLevelMetadata:
    fs: float
    n_samples: int
    first_time: HighResDateTime
    last_time: HighResDateTime


@settings("P13", "decimate.DecimatedMetadata")
class DecimatedMetadata:
    fs: List[float]
    chans: List[str]
    n_chans: Optional[int] = None
    n_levels: int
    first_time: HighResDateTime
    last_time: HighResDateTime
    system: str = ''
    serial: str = ''
    wgs84_latitude: float = -999.0
    wgs84_longitude: float = -999.0
    easting: float = -999.0
    northing: float = -999.0
    elevation: float = -999.0
    chans_metadata: Dict[str, ChanMetadata]
    levels_metadata: List[DecimatedLevelMetadata]
    history: History = History()


@settings("P13 P27", "decimate.Decimator")
class Decimator:
    resample: bool = True
    max_single_factor: conint(ge=3) = 3


@settings("P21", "gather.SiteCombinedMetadata")
class SiteCombinedMetadata:
    site_name: str
    fs: float
    system: str = ''
    serial: str = ''
    wgs84_latitude: float = -999.0
    wgs84_longitude: float = -999.0
    easting: float = -999.0
    northing: float = -999.0
    elevation: float = -999.0
    measurements: Optional[List[str]] = None
    chans: List[str]
    n_evals: int
    eval_freqs: List[float]
    histories: Dict[str, History]


@settings("P30", "letsgo.ProjectCreator")
class ProjectCreator:
    dir_path: Path
    metadata: ProjectMetadata


@settings("P30", "letsgo.ProjectLoader")
class ProjectLoader:
    dir_path: Path


@settings("P30", "letsgo.ResisticsEnvironment")
class ResisticsEnvironment:
    proj: Project
    config: Configuration


@settings("P19", "project.Measurement")
class Measurement:
    site_name: str
    dir_path: Path
    metadata: TimeMetadata
    reader: TimeReader


@settings("P19", "project.Site")
class Site:
    dir_path: Path
    measurements: Dict[str, Measurement]
    begin_time: HighResDateTime
    end_time: HighResDateTime


@settings("P30", "project.ProjectMetadata")
class ProjectMetadata:
    ref_time: HighResDateTime
    location: str = ''
    country: str = ''
    year: int = -999
    description: str = ''
    contributors: List[str] = []


@settings("P19 P30", "project.Project")
class Project:
    dir_path: Path
    begin_time: HighResDateTime
    end_time: HighResDateTime
    metadata: ProjectMetadata
    sites: Dict[str, Site] = {}


@settings("P22", "regression.RegressionInputMetadata")
class RegressionInputMetadata:
    contributors: Dict[str, Union[SiteCombinedMetadata, SpectraMetadata]]
    history: History = History()


@settings("P23", "regression.Solution")
class Solution:
    tf: TransferFunction
    freqs: List[float]
    components: Dict[str, Component]
    history: History
    contributors: Dict[str, Union[SiteCombinedMetadata, SpectraMetadata]]


@settings("P23 P27", "regression.SolverScikit")
class SolverScikit:
    fit_intercept: bool = False
    normalize: bool = False


@settings("P23 P27", "regression.SolverScikitOLS")
class SolverScikitOLS:
    n_jobs: int = -2


@settings("P23 P27", "regression.SolverScikitHuber")
class SolverScikitHuber:
    epsilon: float = 1


@settings("P23 P27", "regression.SolverScikitTheilSen")
class SolverScikitTheilSen:
    n_jobs: int = -2
    max_subpopulation: int = 2000
    n_subsamples: Optional[float] = None


@settings("P23 P27", "regression.SolverScikitRANSAC")
class SolverScikitRANSAC:
    min_samples: float = 0.8
    max_trials: int = 20


@settings("P23 P27", "regression.SolverScikitWLS")
class SolverScikitWLS:
    n_jobs: int = -2
    n_iter: int = 50


@settings("P17", "spectra.SpectraLevelMetadata")
class SpectraLevelMetadata:
    fs: float
    n_wins: int
    win_size: PositiveInt
    olap_size: PositiveInt
    index_offset: int
    n_freqs: int
    freqs: List[float]


@settings("P17", "spectra.SpectraMetadata")
class SpectraMetadata:
    fs: List[float]
    chans: List[str]
    n_chans: Optional[int] = None
    n_levels: int
    first_time: HighResDateTime
    last_time: HighResDateTime
    system: str = ''
    serial: str = ''
    wgs84_latitude: float = -999.0
    wgs84_longitude: float = -999.0
    easting: float = -999.0
    northing: float = -999.0
    elevation: float = -999.0
    chans_metadata: Dict[str, ChanMetadata]
    levels_metadata: List[SpectraLevelMetadata]
    ref_time: HighResDateTime
    history: History = History()


@settings("P17 P27", "spectra.FourierTransform")
class FourierTransform:
    win_fnc: Union[str, Tuple[str, float]] = ('kaiser', 14)
    detrend: Union[str, None] = 'linear'
    workers: int = -2


@settings("P17 P27", "spectra.SpectraSmootherUniform")
class SpectraSmootherUniform:
    length_proportion: float = 0.1


@settings("P17 P27", "spectra.SpectraSmootherGaussian")
class SpectraSmootherGaussian:
    sigma: float = 3


@settings("P07 P10", "time.ChanMetadata")
class ChanMetadata:
    class Config:
        validate_assignment = True

    name: str
    data_files: Optional[List[str]] = None
    chan_type: Optional[str] = None
    chan_source: Optional[str] = None
    sensor: str = ''
    serial: str = ''
    gain1: float = 1
    gain2: float = 1
    scaling: float = 1
    chopper: bool = False
    dipole_dist: float = 1
    sensor_calibration_file: str = ''
    instrument_calibration_file: str = ''


@settings("P06", "time.TimeMetadata")
class TimeMetadata:
    fs: float
    chans: List[str]
    n_chans: Optional[int] = None
    n_samples: int
    first_time: HighResDateTime
    last_time: HighResDateTime
    system: str = ''
    serial: str = ''
    wgs84_latitude: float = -999.0
    wgs84_longitude: float = -999.0
    easting: float = -999.0
    northing: float = -999.0
    elevation: float = -999.0
    chans_metadata: Dict[str, ChanMetadata]
    history: History = History()


@settings("P07 P27", "time.TimeReader")
class TimeReader:
    apply_scalings: bool = True
    extension: Union[str, None] = None


@settings("P07 P27", "time.TimeReaderAscii")
class TimeReaderAscii:
    extension: str = '.txt'
    delimiter: Optional[str] = None
    n_header: int = 0


@settings("P07 P03", "time.TimeReaderNumpy")
class TimeReaderNumpy:
    extension: str = '.npy'


@settings("P07 P27", "time.Subsection")
class Subsection:
    from_time: DateTimeLike
    to_time: DateTimeLike


@settings("P10 P27", "time.Add")
class Add:
    add: Union[float, Dict[str, float]]


@settings("P10 P27", "time.Multiply")
class Multiply:
    multiplier: Union[float, Dict[str, float]]


@settings("P11 P27", "time.LowPass")
class LowPass:
    cutoff: float
    order: int = 10


@settings("P11 P27", "time.HighPass")
class HighPass:
    cutoff: float
    order: int = 10


@settings("P11 P27", "time.BandPass")
class BandPass:
    cutoff_low: float
    cutoff_high: float
    order: int = 10


@settings("P11 P27", "time.Notch")
class Notch:
    notch: float
    band: Optional[float] = None
    order: int = 10


@settings("P06 P27", "time.Resample")
class Resample:
    new_fs: float


@settings("P06 P27", "time.Decimate")
class Decimate:
    factor: conint(ge=1)
    max_single_factor: conint(ge=2) = 3


@settings("P06 P27", "time.ShiftTimestamps")
class ShiftTimestamps:
    shift: PositiveFloat


@settings("P10 P27", "time.ApplyFunction")
class ApplyFunction:
    fncs: Dict[str, Callable]


@settings("P23", "transfunc.Component")
class Component:
    real: List[float]
    imag: List[float]


@settings("P24", "transfunc.TransferFunction")
class TransferFunction:
    name: Optional[str] = None
    variation: constr(max_length=16) = 'generic'
    out_chans: List[str]
    in_chans: List[str]
    cross_chans: Optional[List[str]] = None
    n_out: Optional[int] = None
    n_in: Optional[int] = None
    n_cross: Optional[int] = None


@settings("P24", "transfunc.ImpedanceTensor")
class ImpedanceTensor:
    variation: constr(max_length=16) = 'default'
    out_chans: List[str] = ['Ex', 'Ey']
    in_chans: List[str] = ['Hx', 'Hy']


@settings("P24", "transfunc.Tipper")
class Tipper:
    variation: constr(max_length=16) = 'default'
    out_chans: List[str] = ['Hz']
    in_chans: List[str] = ['Hx', 'Hy']


@settings("P15", "window.WindowParameters")
class WindowParameters:
    n_levels: int
    min_n_wins: int
    win_sizes: List[int]
    olap_sizes: List[int]


@settings("P15 P27", "window.WindowSetup")
class WindowSetup:
    min_size: int = 128
    min_olap: int = 32
    win_factor: int = 4
    olap_proportion: float = 0.25
    min_n_wins: int = 5
    win_sizes: Optional[List[int]] = None
    olap_sizes: Optional[List[int]] = None


@settings("P15", "window.WindowedLevelMetadata")
class WindowedLevelMetadata:
    fs: float
    n_wins: int
    win_size: PositiveInt
    olap_size: PositiveInt
    index_offset: int


@settings("P15", "window.WindowedMetadata")
class WindowedMetadata:
    fs: List[float]
    chans: List[str]
    n_chans: Optional[int] = None
    n_levels: int
    first_time: HighResDateTime
    last_time: HighResDateTime
    system: str = ''
    serial: str = ''
    wgs84_latitude: float = -999.0
    wgs84_longitude: float = -999.0
    easting: float = -999.0
    northing: float = -999.0
    elevation: float = -999.0
    chans_metadata: Dict[str, ChanMetadata]
    levels_metadata: List[WindowedLevelMetadata]
    ref_time: HighResDateTime
    history: History = History()


@settings("P15 P27", "window.WindowerTarget")
class WindowerTarget:
    target: int = 1000
    min_size: int = 64
    olap_proportion: float = 0.25

@settings("P07 P27", "time.TimeReaderJSON")
class TimeReaderJSON:
    pass


@settings("P05 P03", "time.TimeWriterNumpy")
class TimeWriterNumpy:
    pass


@settings("P05", "time.TimeWriterAscii")
class TimeWriterAscii:
    pass


@settings("P05 P03", "decimate.DecimatedDataWriter")
class DecimatedDataWriter:
    pass


@settings("P05 P03", "window.WindowedDataWriter")
class WindowedDataWriter:
    pass


@settings("P05 P03", "spectra.SpectraDataWriter")
class SpectraDataWriter:
    pass


@settings("P09 P03 P04", "common.ResisticsModel")
class ResisticsModel:
    class Config:
        json_encoders = {RSDateTime: datetime_to_string}



# ---- arguments that may be left out, and what they then are

@operation("P27", "common.array_to_string")
def array_to_string(*, sep=', ', precision=8, scientific=False): pass


@operation("P02 P27", "common.get_history")
def get_history(*, history=None): pass


@operation("P27", "common.get_record")
def get_record(*, record_type='process', time_utc=None, time_local=None): pass


@operation("P08 P16 P27", "decimate.DecimatedData.get_timestamps")
def get_timestamps(*, samples=None, estimate=True): pass


@operation("P03 P27", "decimate.DecimatedDataReader.run")
def run(*, metadata_only=False): pass


@operation("P12 P27", "decimate.get_eval_freqs")
def get_eval_freqs(*, f_min=None, n_freqs=None): pass


@operation("P21 P27", "gather.ProjectGather.run")
def run(*, in_name=None, cross_name=None): pass


@operation("P20 P19 P27", "gather.Selector.run")
def run(*, masks=None): pass


@operation("P04 P26 P27", "letsgo.get_solution")
def get_solution(*, postfix=None): pass


@operation("P30 P27", "letsgo.load")
def load(*, config=None): pass


@operation("P26 P20 P27", "letsgo.process_evals_to_tf")
def process_evals_to_tf(*, in_site=None, cross_site=None, masks=None, postfix=None): pass


@operation("P26 P04 P27", "letsgo.process_time")
def process_time(*, from_time=None, to_time=None): pass


@operation("P26 P27", "letsgo.quick_read")
def quick_read(*, config=None): pass


@operation("P26 P14 P27", "letsgo.quick_spectra")
def quick_spectra(*, config=None): pass


@operation("P26 P14 P27", "letsgo.quick_tf")
def quick_tf(*, config=None, calibration_path=None): pass


@operation("P26 P27", "letsgo.quick_view")
def quick_view(*, config=None, decimate=False, max_pts=10000): pass


@operation("P26 P27", "letsgo.run_decimation")
def run_decimation(*, dec_params=None): pass


@operation("P19 P27", "project.Project.get_sites")
def get_sites(*, fs=None): pass


@operation("P19 P27", "project.Site.get_measurements")
def get_measurements(*, fs=None): pass


@operation("P04 P27", "project.get_solution_name")
def get_solution_name(*, postfix=None): pass


@operation("P23 P27", "regression.SolverScikitWLS.bisquare")
def bisquare(*, k=4.685): pass


@operation("P23 P27", "regression.SolverScikitWLS.huber")
def huber(*, k=1.345): pass


@operation("P23 P27", "regression.SolverScikitWLS.trimmed_mean")
def trimmed_mean(*, k=2): pass


@operation("P08 P27", "sampling.datetime_array")
def datetime_array(*, n_samples=None, samples=None): pass


@operation("P08 P27", "sampling.datetime_array_estimate")
def datetime_array_estimate(*, n_samples=None, samples=None): pass


@operation("P08 P27", "sampling.sample_to_datetime")
def sample_to_datetime(*, n_samples=None): pass


@operation("P08 P27", "sampling.to_n_samples")
def to_n_samples(*, method='round'): pass


@operation("P17 P27", "spectra.SpectraData.get_mag_phs")
def get_mag_phs(*, unwrap=False): pass


@operation("P03 P27", "spectra.SpectraDataReader.run")
def run(*, metadata_only=False): pass


@operation("P08 P27", "time.TimeData.get_timestamps")
def get_timestamps(*, samples=None, estimate=True): pass


@operation("P07 P27", "time.TimeReader.run")
def run(*, metadata_only=False, metadata=None, from_time=None, to_time=None, from_sample=None, to_sample=None): pass


@operation("P10 P06 P27", "time.new_time_data")
def new_time_data(*, metadata=None, data=None, record=None): pass



@operation("P03 P27", "window.WindowedDataReader.run")
def run(*, metadata_only=False): pass


@operation("P14 P27", "window.datetime_to_win")
def datetime_to_win(*, method='round'): pass

