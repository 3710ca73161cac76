"""Definitions that settle more than one property.

Each property's check also judges the definitions listed here (patterns of
function:observable); they are stated once, in the file of their module."""

SHARED = {
    "P02": ["decimate.DecimatedDataReader.run:ret", "spectra.SpectraDataReader.run:ret", "window.WindowedDataReader.run:ret",
            "time.TimeReader.run:ret", "time.TimeReaderJSON.read_metadata:ret", "time.TimeWriter*.run:effects*", "time.new_time_data:ret.metadata"],
    "P03": ["time.TimeReader.run:ret", "time.TimeReader._get_read_samples:ret", "time.TimeReaderNumpy.read_data:ret.metadata",
            "time.TimeReaderAscii.read_data:ret*", "common.Metadata@n_chans:ret", "sampling.HighResDateTime.*", "sampling.datetime_to_string:ret",
            "sampling.datetime_from_string:ret", "*DataWriter.run:ret"],
    "P04": ["letsgo.ProjectCreator.run:*", "letsgo.ProjectLoader.*", "letsgo.load:ret", "calibrate.SensorCalibrationReader._get_path:ret",
            "calibrate.SensorCalibrationReader.run:ret", "letsgo.run_sensor_calibration:ret", "gather.get_site_wins:ret"],
    "P05": ["time.TimeWriter*.run:effects*", "common.WriteableMetadata.write:effects", "letsgo.process_time_to_evals:effects"],
    "P06": ["time.TimeData.__init__:post(self)._chan_to_idx", "time.TimeReader.run:ret", "time.new_time_data:ret.data", "time.TimeData.subsection:ret",
            "time.TimeData.get_timestamps:ret", "sampling.to_n_samples:ret", "sampling.sample_to_datetime:ret"],
    "P07": ["sampling.from_time_to_sample:ret", "sampling.to_time_to_sample:ret", "sampling.check_*_time:ret", "sampling.check_sample:ret",
            "sampling.sample_to_datetime:ret", "time.adjust_time_metadata:ret", "time.TimeReaderJSON.read_metadata:ret", "letsgo.quick_read:ret"],
    "P08": ["time.TimeData.subsection:ret", "time.TimeReader._get_read_samples:ret", "time.adjust_time_metadata:ret", "time.TimeMetadata.dt:ret",
            "time.TimeMetadata.duration:ret", "time.Subsection.run:ret*"],
    "P09": ["sampling.to_seconds:ret", "sampling.sample_to_datetime:ret", "sampling.samples_to_datetimes:ret"],
    "P10": ["time.TimeData.__init__:*", "time.TimeData.*chan*", "time.TimeData.__*item__:*", "time.TimeReader.scale_data:ret", "time.Add.run:ret.metadata",
            "time.Multiply.run:ret.metadata", "time.RemoveMean.run:ret.metadata", "time.InterpolateNans.run:ret.metadata", "time.ApplyFunction.run:ret.metadata",
            "letsgo.run_time_processors:ret"],
    "P11": ["time.*Pass.run:ret.metadata", "time.Notch.run:ret.metadata", "time.new_time_data:ret.data"],
    "P13": ["decimate.DecimatedData.*", "decimate.DecimationParameters.get_*", "letsgo.run_decimation:ret", "time.Decimate.run:ret.metadata.history.records",
            "time.new_time_data:ret.metadata"],
    "P14": ["window.WindowSetup.run:ret", "window.WindowParameters.get_*", "sampling.to_n_samples:ret", "gather.get_site_wins:ret", "window.WindowedData.get_*",
            "letsgo.run_windowing:ret"],
    "P15": ["window.get_*", "window.*_duration:ret", "window.WindowedLevelMetadata.dt:ret", "window.WindowedData.*", "window.datetime_to_win:ret",
            "window.win_to_datetime:ret", "letsgo.run_windowing:ret"],
    "P16": ["calibrate.CalibrationData.__getitem__:ret", "regression.RegressionInputData.get_inputs:ret", "gather.Selection.get_*", "sampling.check_sample:ret",
            "time.TimeReader._get_read_samples:ret", "project.*.__getitem__:ret", "decimate.DecimatedData.*", "transfunc.Component.get_value:ret"],
    "P17": ["letsgo.run_fft:ret", "letsgo.run_evals:ret", "letsgo.run_spectra_processors:ret", "decimate.DecimationParameters.get_eval_freqs:ret",
            "spectra.SpectraData.get_*"],
    "P18": ["calibrate.SensorCalibration*", "calibrate.CalibrationData.*"],
    "P19": ["letsgo.load:ret", "letsgo.reload:ret", "time.TimeMetadata.dt:ret", "time.TimeMetadata.duration:ret"],
    "P20": ["project.Project.get_concurrent:ret", "project.Site.get_measurements:ret", "project.Project.get_sites:ret"],
    "P21": ["gather.get_site_wins:ret", "gather.get_site_level_wins:ret", "gather.get_site_evals_metadata:ret", "spectra.SpectraDataReader.run:ret", "letsgo.process_evals_to_tf:ret",
            "spectra.SpectraData.get_*"],
    "P22": ["regression.SolverScikit._solve:ret", "transfunc.TransferFunction.n_*:ret", "transfunc.TransferFunction@*"],
    "P23": ["regression.RegressionInputData.__init__:*", "transfunc.TransferFunction@*"],
    "P24": ["regression.Solution.get_tensor:ret"],
    "P25": ["transfunc.TransferFunction.validate:ret", "transfunc.TransferFunction.__init_subclass__:*", "transfunc.TransferFunction.__get_validators__:*",
            "time.serialize_custom_fnc:ret", "config.get_default_configuration:ret"],
    "P26": ["gather.ProjectGather.run:ret*", "gather.ProjectGather._get_site_data:effects", "gather.Selector.run:ret*", "regression.SolverScikit*.run:ret"],
    "P27": ["*.run:ret.data", "letsgo.*", "time.TimeReader*", "decimate.DecimationSetup.run:ret", "decimate.DecimatedData*Reader.run:ret",
            "spectra.SpectraDataReader.run:ret", "window.WindowedDataReader.run:ret", "window.WindowSetup.run:ret", "window.Windower*.run:ret.metadata",
            "regression.SolverScikit*", "calibrate.Calibrator.*", "calibrate.SensorCalibration*", "common.ResisticsWriter._check_dir:*", "project.get_*",
            "decimate.get_eval_freqs*", "time.ShiftTimestamps.run:*", "spectra.EvaluationFreqs.run:*", "*.get_timestamps:ret", "spectra.SpectraData.get_mag_phs:ret",
            "common.array_to_string:ret", "common.fs_to_string:ret", "*to_string:ret", "sampling.to_n_samples:ret", "sampling.datetime_array*"],
    "P28": ["calibrate.SensorCalibrator._get_cal_data:ret"],
    "P29": ["common.check_chan:ret", "sampling.check_*", "common.ResisticsWriter._check_dir:*", "time.TimeReader.run:ret", "time.TimeReader._get_read_samples:ret",
            "transfunc.TransferFunction.validate:ret", "common.ResisticsProcess.validate:ret", "sampling.HighResDateTime.validate:ret", "*Pass.run:ret.data",
            "letsgo.load:ret", "letsgo.get_solution:ret", "letsgo.ProjectLoader.*", "*.check_level:ret", "*.check_eval_idx:ret", "calibrate.SensorCalibration*",
            "letsgo.run_*", "gather.get_site_*", "gather.Selector.*", "transfunc.Component.get_value:ret", "regression.Solution.__getitem__:ret",
            "regression.Solution.get_component:ret", "project.*.__getitem__:ret", "*.get_level:ret", "*.get_chan:ret", "window.get_first_and_last_win:ret"],
    "P30": ["common.WriteableMetadata.write:effects", "common.dir_*", "common.is_*", "common.assert_*", "time.TimeReaderJSON.read_metadata:ret", "project.*",
            "common.fs_to_string:ret"],
}
