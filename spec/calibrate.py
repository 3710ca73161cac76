"""Calibration: reading calibration files and removing instrument responses."""
import numpy as np
import pandas as pd


# ================================================================ calibration data (P28)
@ensures("P28", "calibrate.CalibrationData@n_samples")
def validate_n_samples(cls, value, values):
    return len(values["frequency"]) if value is None else value


@ensures("P28", "calibrate.CalibrationData.__getitem__")
def cal_getitem(self, arg):
    if arg not in ("frequency", "magnitude", "phase"):
        raise ValueError("")
    return np.array({"frequency": self.frequency, "magnitude": self.magnitude, "phase": self.phase}[arg])


@ensures("P28", "calibrate.CalibrationData.to_dataframe")
def to_dataframe(self):
    return pd.DataFrame(data={"frequency": self.frequency, "magnitude": self.magnitude, "phase": self.phase}).set_index("frequency")


# ================================================================ finding the file (P28, P29)
def cal_path(self, dir_path, metadata, chan):
    m = metadata.chans_metadata[chan]
    name = self.file_str.replace("$sensor", m.sensor).replace("$serial", m.serial)
    return dir_path / (name if self.extension is None else name.replace("$extension", self.extension))


@ensures("P28 P18", "calibrate.SensorCalibrationReader._get_path")
def get_path(self, dir_path, metadata, chan):
    return cal_path(self, dir_path, metadata, chan)


@ensures("P28 P29 P18", "calibrate.SensorCalibrationReader.run")
def reader_run(self, dir_path, metadata, chan):
    path = cal_path(self, dir_path, metadata, chan)
    if not path.exists():
        raise CalibrationFileNotFound(dir_path, path)
    return self.read_calibration_data(path, metadata.chans_metadata[chan])


@ensures("P28", "calibrate.SensorCalibrationJSON.read_calibration_data")
def read_json(self, file_path, chan_metadata):
    x = CalibrationData.parse_file(file_path)
    x.file_path = file_path
    return x


# ================================================================ text files (P28)
def value_of(line):
    return line.split("=")[1].strip()


def cal_lines(file_path):
    with file_path.open("r") as f:
        lines = f.readlines()
    return [x.strip() for x in lines]


def sensor_details(lines):
    serial = "1"
    sensor = ""
    for line in lines:
        if "serial" in line.lower():
            serial = value_of(line)
        if "sensor" in line.lower():
            sensor = value_of(line)
    return serial, sensor


def static_gain(lines):
    for line in lines:
        if "static gain" in line.lower():
            return float(value_of(line))
    return 1.0


def chopper(lines):
    for line in lines:
        if "chopper" in line.lower():
            return value_of(line) == "True"
    return False


def units(lines):
    mag = "mV/nT"
    phs = "radians"
    for line in lines:
        if "magnitude unit" in line.lower():
            mag = value_of(line)
        if "phase unit" in line.lower():
            phs = value_of(line)
    return mag, phs


def cal_metadata(lines):
    serial, sensor = sensor_details(lines)
    mag, phs = units(lines)
    return {"serial": serial, "sensor": sensor, "static_gain": static_gain(lines), "chopper": chopper(lines), "magnitude_unit": mag, "phase_unit": phs}


def data_start(lines):
    for k, line in enumerate(lines):
        if "CALIBRATION DATA" in line:
            return k + 1
    raise ValueError("")


def data_block(lines, k):
    out = []
    while k < len(lines) and lines[k] != "":
        out.append(lines[k])
        k = k + 1
    return out


def cal_table(lines, phase_unit):
    rows = [x.split() for x in data_block(lines, data_start(lines))]
    df = pd.DataFrame(data=np.array(rows, dtype=float), columns=["frequency", "magnitude", "phase"])
    if phase_unit == "degrees":
        df["phase"] = df["phase"] * (np.pi / 180)
    return df.set_index("frequency").sort_index()


@ensures("P28", "calibrate.SensorCalibrationTXT._get_sensor_details")
def get_sensor_details(self, lines):
    return sensor_details(lines)


@ensures("P28", "calibrate.SensorCalibrationTXT._get_static_gain")
def get_static_gain(self, lines):
    return static_gain(lines)


@ensures("P28", "calibrate.SensorCalibrationTXT._get_chopper")
def get_chopper(self, lines):
    return chopper(lines)


@ensures("P28", "calibrate.SensorCalibrationTXT._get_units")
def get_units(self, lines):
    return units(lines)


@ensures("P28", "calibrate.SensorCalibrationTXT._read_metadata")
def read_metadata(self, lines):
    return cal_metadata(lines)


@ensures("P28 P29", "calibrate.SensorCalibrationTXT._get_read_from")
def get_read_from(self, lines):
    return data_start(lines)


@ensures("P28", "calibrate.SensorCalibrationTXT._get_data_lines")
def get_data_lines(self, lines, idx):
    return data_block(lines, idx)


@ensures("P28", "calibrate.SensorCalibrationTXT._read_data")
def read_data(self, lines, data_dict):
    return cal_table(lines, data_dict["phase_unit"])


@ensures("P28 P29", "calibrate.SensorCalibrationTXT.read_calibration_data")
def read_txt(self, file_path, chan_metadata):
    lines = cal_lines(file_path)
    d = cal_metadata(lines)
    df = cal_table(lines, d["phase_unit"])
    d["frequency"] = df.index.values.tolist()
    d["magnitude"] = df["magnitude"].values.tolist()
    d["phase"] = df["phase"].values.tolist()
    d["file_path"] = file_path
    return CalibrationData(**d)


# ================================================================ calibrating (P18)
def chans_to_calibrate(self, chans):
    if self.chans is None:
        return chans
    return [x for x in self.chans if x in chans]


def response(freqs, cal):
    return np.interp(freqs, cal.frequency, cal.magnitude) * np.exp(1j * np.interp(freqs, cal.frequency, cal.phase))


def calibrated(freqs, x, cal):
    return np.squeeze(x[:, None, :] / response(np.array(freqs), cal)[None, :], axis=1)


@ensures("P18", "calibrate.Calibrator._get_chans")
def get_chans(self, chans):
    return chans_to_calibrate(self, chans)


@ensures("P18", "calibrate.Calibrator._interpolate")
def interpolate(self, freqs, cal_data):
    return response(freqs, cal_data)


@ensures("P18", "calibrate.Calibrator._calibrate")
def calibrate(self, freqs, chan_data, cal_data):
    return calibrated(freqs, chan_data, cal_data)


def calibration_for(self, dir_path, metadata, chan):
    """the first reader that can provide calibration data for the channel"""
    for reader in self.readers:
        try:
            return reader.run(dir_path, metadata, chan)
        except Exception:
            pass
    return None


@ensures("P18", "calibrate.SensorCalibrator._get_cal_data")
def get_cal_data(self, dir_path, metadata, chan):
    return calibration_for(self, dir_path, metadata, chan)


def calibrate_levels(self, dir_path, spec_data):
    m = spec_data.metadata
    out = {x: np.array(y) for x, y in spec_data.data.items()}
    for chan in chans_to_calibrate(self, m.chans):
        cal = self._get_cal_data(dir_path, m, chan)
        if cal is not None:
            k = m.chans.index(chan)
            for level in range(m.n_levels):
                out[level][:, k] = calibrated(m.levels_metadata[level].freqs, out[level][:, k], cal)
    return out


@ensures("P18", "calibrate.SensorCalibrator.run", view="ret.data", opaque=["calibrate.SensorCalibrator._get_cal_data"])
def sensor_calibrator(self, dir_path, spec_data):
    return calibrate_levels(self, dir_path, spec_data)


@ensures("P18", "calibrate.SensorCalibrator.run", view="ret.metadata", opaque=["calibrate.SensorCalibrator._get_cal_data"])
def sensor_calibrator_metadata(self, dir_path, spec_data):
    m = SpectraMetadata(**spec_data.metadata.dict())
    m.history = ANY
    return m
