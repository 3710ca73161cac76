"""Time data: metadata, containers, readers, writers and processes."""
import math
import numpy as np
import pandas as pd
from fractions import Fraction
from scipy.signal import butter, sosfiltfilt, resample_poly, decimate
from scipy.interpolate import interp1d

OPAQUE = []


# ================================================================ metadata
@ensures("P06", "time.TimeMetadata.dt")
def dt(self):
    return 1 / self.fs


@ensures("P06", "time.TimeMetadata.duration")
def duration(self):
    return self.last_time - self.first_time


@ensures("P11 P06", "time.TimeMetadata.nyquist")
def nyquist(self):
    return self.fs / 2


@ensures("P16", "time.TimeMetadata.__getitem__")
def metadata_getitem(self, chan):
    if chan not in self.chans:
        raise ChannelNotFoundError(chan, self.chans)
    return self.chans_metadata[chan]


@ensures("P10", "time.TimeMetadata.get_chans_with_type")
def get_chans_with_type(self, chan_type):
    return [x for x in self.chans if self.chans_metadata[x].chan_type == chan_type]


def chans_of(self, kind):
    return [x for x in self.chans if self.chans_metadata[x].chan_type == kind]


@ensures("P10", "time.TimeMetadata.get_electric_chans")
def get_electric_chans(self):
    return chans_of(self, "electric")


@ensures("P10", "time.TimeMetadata.get_magnetic_chans")
def get_magnetic_chans(self):
    return chans_of(self, "magnetic")


@ensures("P10", "time.TimeMetadata.any_electric")
def any_electric(self):
    return len(chans_of(self, "electric")) > 0


@ensures("P10", "time.TimeMetadata.any_magnetic")
def any_magnetic(self):
    return len(chans_of(self, "magnetic")) > 0


@ensures("P10", "time.TimeMetadata.get_chan_types")
def get_chan_types(self):
    return sorted(list({x.chan_type for x in self.chans_metadata.values()}))


@ensures("P10", "time.ChanMetadata.electric")
def electric(self):
    return self.chan_type == "electric"


@ensures("P10", "time.ChanMetadata.magnetic")
def magnetic(self):
    return self.chan_type == "magnetic"


@ensures("P10", "time.ChanMetadata@chan_type")
def validate_chan_type(cls, value, values):
    if isinstance(value, str):
        return value
    try:
        return get_chan_type(values["name"])
    except ValueError:
        raise ValueError("")


@ensures("P03", "time.ChanMetadata@data_files")
def validate_data_files(cls, value):
    return [value] if isinstance(value, str) else value


def last_sample_time(fs, first_time, n_samples):
    return first_time + (n_samples - 1) * to_timedelta(1 / fs)


@ensures("P06", "time.adjust_time_metadata")
def adjust_time_metadata(metadata, fs, first_time, n_samples):
    m = TimeMetadata(**metadata.dict())
    m.fs = fs
    m.first_time = first_time
    m.n_samples = n_samples
    m.last_time = last_sample_time(fs, first_time, n_samples)
    return m


@ensures("P06", "time.get_time_metadata")
def get_time_metadata(time_dict, chans_dict):
    chans = {x: ChanMetadata(**chans_dict[x]) for x in time_dict["chans"]}
    return TimeMetadata(**{**time_dict, "chans_metadata": chans})


# ================================================================ container
@ensures("P16", "time.TimeData.__init__", view="post(self)._chan_to_idx")
def chan_to_idx(self, metadata, data):
    return {chan: i for i, chan in enumerate(metadata.chans)}


@ensures("P16 P06", "time.TimeData.__init__", view="post(self).data")
def init_data(self, metadata, data):
    return data


@ensures("P16 P06", "time.TimeData.__init__", view="post(self).metadata")
def init_metadata(self, metadata, data):
    return metadata


@ensures("P16", "time.TimeData.get_chan time.TimeData.__getitem__")
def get_chan(self, chan):
    if chan not in self.metadata.chans:
        raise ChannelNotFoundError(chan, self.metadata.chans)
    return self.data[self._chan_to_idx[chan]]


@ensures("P16", "time.TimeData.get_chan_index")
def get_chan_index(self, chan):
    return self._chan_to_idx[chan]


@ensures("P16", "time.TimeData.set_chan time.TimeData.__setitem__", view="post(self).data")
def set_chan(self, chan, chan_data):
    if chan not in self.metadata.chans:
        raise ChannelNotFoundError(chan, self.metadata.chans)
    if chan_data.size != self.metadata.n_samples:
        raise ValueError("")
    if chan_data.dtype != self.data.dtype:
        raise ValueError("")
    self.data[self._chan_to_idx[chan]] = chan_data
    return self.data


@ensures("P08", "time.TimeData.get_timestamps")
def get_timestamps(self, samples, estimate):
    f, fs = self.metadata.first_time, self.metadata.fs
    if samples is None:
        return datetime_array_estimate(f, fs, n_samples=self.metadata.n_samples) if estimate else datetime_array(f, fs, n_samples=self.metadata.n_samples)
    return datetime_array_estimate(f, fs, samples=samples) if estimate else datetime_array(f, fs, samples=samples)


@ensures("P10", "time.TimeData.copy")
def copy(self):
    return TimeData(TimeMetadata(**self.metadata.dict()), np.array(self.data))


# ================================================================ readers (P07)
def read_range(metadata, from_time, to_time, from_sample, to_sample):
    n = metadata.n_samples
    fs, first, last = metadata.fs, metadata.first_time, metadata.last_time
    if from_time is not None:
        a = from_time_to_sample(fs, first, last, to_datetime(from_time))
    elif from_sample is not None:
        check_sample(n, from_sample)
        a = from_sample
    else:
        a = 0
    if to_time is not None:
        b = to_time_to_sample(fs, first, last, to_datetime(to_time))
    elif to_sample is not None:
        check_sample(n, to_sample)
        b = to_sample
    else:
        b = n - 1
    if not a < b:
        raise ValueError("")
    return a, b


@ensures("P07", "time.TimeReader._get_read_samples")
def get_read_samples(self, metadata, from_time, to_time, from_sample, to_sample):
    return read_range(metadata, from_time, to_time, from_sample, to_sample)


@ensures("P07", "time.TimeReader.run", virtual=["time.TimeReader.scale_data"])
def reader_run(self, dir_path, metadata_only, metadata, from_time, to_time, from_sample, to_sample):
    if metadata_only:
        return self.read_metadata(dir_path)
    m = self.read_metadata(dir_path) if metadata is None else metadata
    a, b = read_range(m, from_time, to_time, from_sample, to_sample)
    data = self.read_data(dir_path, m, a, b)
    return self.scale_data(data) if self.apply_scalings else data


@ensures("P07", "time.TimeReader.scale_data")
def scale_data(self, time_data):
    return time_data


def read_metadata_part(metadata, read_from, read_to):
    m = TimeMetadata(**metadata.dict())
    first = sample_to_datetime(metadata.fs, metadata.first_time, read_from)
    n = read_to - read_from + 1
    m.first_time = first
    m.n_samples = n
    m.last_time = last_sample_time(metadata.fs, first, n)
    return m


READERS = "time.TimeReaderNumpy.read_data time.TimeReaderAscii.read_data"


@ensures("P07 P06", "time.TimeReaderNumpy.read_data time.TimeReaderAscii.read_data", view="ret.metadata")
def read_data_metadata(self, dir_path, metadata, read_from, read_to):
    m = read_metadata_part(metadata, read_from, read_to)
    m.history = ANY
    return m


@ensures("P02", "time.TimeReaderNumpy.read_data time.TimeReaderAscii.read_data", view="ret.metadata.history.records")
def read_data_history(self, dir_path, metadata, read_from, read_to):
    return metadata.history.records + [self._get_record("")]


def first_data_file(dir_path, metadata):
    return dir_path / metadata.chans_metadata[metadata.chans[0]].data_files[0]


@ensures("P07 P03", "time.TimeReaderNumpy.read_data", view="ret.data")
def numpy_data(self, dir_path, metadata, read_from, read_to):
    return np.load(first_data_file(dir_path, metadata), mmap_mode="r")[:, read_from:read_to + 1]


@ensures("P07", "time.TimeReaderAscii.read_data", view="ret.data")
def ascii_data(self, dir_path, metadata, read_from, read_to):
    table = np.loadtxt(first_data_file(dir_path, metadata), dtype=np.float32, delimiter=self.delimiter,
                       skiprows=self.n_header + read_from, max_rows=read_to - read_from + 1, ndmin=2)
    return table.transpose()


@ensures("P29 P03", "time.TimeReaderJSON.read_metadata")
def read_metadata(self, dir_path):
    if self.extension is None:
        raise TimeDataReadError(dir_path, "")
    path = dir_path / "metadata.json"
    try:
        metadata = TimeMetadata.parse_file(path)
    except KeyError:
        raise MetadataReadError(path, "")
    files = [f for c in metadata.chans_metadata.values() for f in c.data_files]
    for f in files:
        if not ((dir_path / f).exists() and (dir_path / f).is_file()):
            raise TimeDataReadError(dir_path, "")
    for f in files:
        if (dir_path / f).suffix != self.extension:
            raise TimeDataReadError(dir_path, "")
    return metadata


# ================================================================ writers (P03, P05)
@ensures("P03 P05 P02", "time.TimeWriterNumpy.run", view="effects")
def write_numpy(self, dir_path, time_data):
    if dir_path.exists() and not self.overwrite:
        raise WriteError(dir_path, "")
    if not dir_path.exists():
        dir_path.mkdir(parents=True)
    np.save(dir_path / "data.npy", time_data.data)
    m = TimeMetadata(**time_data.metadata.dict())
    for chan in time_data.metadata.chans:
        m.chans_metadata[chan].data_files = ["data.npy"]
    m.history.records = time_data.metadata.history.records + [self._get_record(dir_path, type(time_data))]
    m.write(dir_path / "metadata.json")


@ensures("P03 P05 P02", "time.TimeWriterAscii.run", view="effects")
def write_ascii(self, dir_path, time_data):
    if dir_path.exists() and not self.overwrite:
        raise WriteError(dir_path, "")
    if not dir_path.exists():
        dir_path.mkdir(parents=True)
    m = TimeMetadata(**time_data.metadata.dict())
    for chan in time_data.metadata.chans:
        np.savetxt(dir_path / f"{chan.lower()}.ascii", time_data[chan], fmt="%.6f", newline="\n")
        m.chans_metadata[chan].data_files = [f"{chan.lower()}.ascii"]
    m.history.records = time_data.metadata.history.records + [self._get_record(dir_path, type(time_data))]
    m.write(dir_path / "metadata.json")


@ensures("P02", "time.serialize_custom_fnc")
def function_text(fnc):
    test = np.arange(3)
    return f"Custom function with result [{array_to_string(fnc(test), precision=2)}] on [{array_to_string(test, precision=2)}]"


# ================================================================ processes
@ensures("P10", "time.new_time_data", view="ret.data")
def new_data(time_data, metadata, data, record):
    return np.array(time_data.data) if data is None else data


@ensures("P06", "time.new_time_data", view="ret.metadata")
def new_metadata(time_data, metadata, data, record):
    m = TimeMetadata(**(time_data.metadata if metadata is None else metadata).dict())
    m.history = ANY
    return m


@ensures("P02", "time.new_time_data", view="ret.metadata.history.records")
def new_history(time_data, metadata, data, record):
    old = time_data.metadata.history.records if metadata is None else metadata.history.records
    return old if record is None else old + [record]


@ensures("P02", "time.Subsection.run time.InterpolateNans.run time.RemoveMean.run time.Add.run time.Multiply.run time.LowPass.run "
         "time.HighPass.run time.BandPass.run time.Notch.run time.Resample.run time.Decimate.run time.ShiftTimestamps.run time.ApplyFunction.run",
         view="ret.metadata.history.records", partial=True)
def process_history(self, time_data):
    return time_data.metadata.history.records + [self._get_record("")]


@ensures("P06", "time.InterpolateNans.run time.RemoveMean.run time.Add.run time.Multiply.run time.LowPass.run "
         "time.HighPass.run time.BandPass.run time.Notch.run time.ApplyFunction.run", view="ret.metadata", partial=True)
def same_metadata(self, time_data):
    m = TimeMetadata(**time_data.metadata.dict())
    m.history = ANY
    return m


@ensures("P10", "time.RemoveMean.run", view="ret.data")
def remove_mean(self, time_data):
    return time_data.data - np.mean(time_data.data, axis=1)[:, None]


@ensures("P10", "time.Add.run", view="ret.data")
def add(self, time_data):
    x = np.zeros(shape=time_data.metadata.n_chans, dtype=time_data.data.dtype)
    if isinstance(self.add, float) or isinstance(self.add, int):
        x = x + self.add
    else:
        for chan in time_data.metadata.chans:
            if chan in self.add:
                x[time_data._chan_to_idx[chan]] = self.add[chan]
    return time_data.data + x[:, None]


@ensures("P10", "time.Multiply.run", view="ret.data")
def multiply(self, time_data):
    x = np.ones(shape=time_data.metadata.n_chans, dtype=time_data.data.dtype)
    if isinstance(self.multiplier, float) or isinstance(self.multiplier, int):
        x = x * self.multiplier
    else:
        for chan in time_data.metadata.chans:
            if chan in self.multiplier:
                x[time_data._chan_to_idx[chan]] = self.multiplier[chan]
    return time_data.data * x[:, None]


def filtered(self, time_data, wn, btype):
    sos = butter(self.order, wn, btype=btype, analog=False, output="sos")
    return sosfiltfilt(sos, time_data.data, axis=1).astype(time_data.data.dtype)


@ensures("P11", "time.LowPass.run", view="ret.data")
def low_pass(self, time_data):
    nyq = time_data.metadata.fs / 2
    if self.cutoff > nyq:
        raise ProcessRunError(self.name, "")
    return filtered(self, time_data, self.cutoff / nyq, "lowpass")


@ensures("P11", "time.HighPass.run", view="ret.data")
def high_pass(self, time_data):
    nyq = time_data.metadata.fs / 2
    if self.cutoff > nyq:
        raise ProcessRunError(self.name, "")
    return filtered(self, time_data, self.cutoff / nyq, "highpass")


@ensures("P11", "time.BandPass.run", view="ret.data")
def band_pass(self, time_data):
    nyq = time_data.metadata.fs / 2
    if self.cutoff_low > self.cutoff_high:
        raise ProcessRunError(self.name, "")
    if self.cutoff_high > nyq:
        raise ProcessRunError(self.name, "")
    return filtered(self, time_data, (self.cutoff_low / nyq, self.cutoff_high / nyq), "bandpass")


@ensures("P11", "time.Notch.run", view="ret.data")
def notch(self, time_data):
    fs = time_data.metadata.fs
    nyq = fs / 2
    if self.notch > nyq:
        raise ProcessRunError(self.name, "")
    band = fs / 10 if self.band is None else self.band
    low = (self.notch - band / 2) / nyq
    high = (self.notch + band / 2) / nyq
    return filtered(self, time_data, (low, 1 if high > 1 else high), "bandstop")


@ensures("P10", "time.InterpolateNans.run", view="ret.data")
def interpolate_nans(self, time_data):
    data = np.array(time_data.data)
    for chan in time_data.metadata.chans:
        idx = time_data._chan_to_idx[chan]
        x = data[idx, :]
        bad = np.isnan(x)
        if np.any(bad):
            good = np.ones(x.size, bool)
            good[bad] = 0
            n = np.arange(x.size)
            x[bad] = np.interp(n[bad], n[good], x[good])
        data[idx, :] = x
    return data


@ensures("P10", "time.ApplyFunction.run", view="ret.data")
def apply_function(self, time_data):
    data = time_data.data.astype(np.float64)
    for chan, fnc in self.fncs.items():
        if chan in time_data.metadata.chans:
            data[time_data._chan_to_idx[chan]] = fnc(time_data.data[time_data._chan_to_idx[chan]])
    return data


# ---- steps that change the sampling (P06)
def resampled(metadata, fs, first_time, n_samples):
    m = TimeMetadata(**metadata.dict())
    m.history = ANY
    m.fs = fs
    m.first_time = first_time
    m.n_samples = n_samples
    m.last_time = last_sample_time(fs, first_time, n_samples)
    return m


def section(self, time_data):
    m = time_data.metadata
    return datetimes_to_samples(m.fs, m.first_time, m.last_time, to_datetime(self.from_time), to_datetime(self.to_time))


@ensures("P06 P07", "time.Subsection.run", view="ret.data")
def subsection_data(self, time_data):
    a, b = section(self, time_data)
    samples_to_datetimes(time_data.metadata.fs, time_data.metadata.first_time, a, b)
    return np.array(time_data.data[:, a:b + 1])


@ensures("P06 P07", "time.Subsection.run", view="ret.metadata")
def subsection_metadata(self, time_data):
    m = time_data.metadata
    a, b = section(self, time_data)
    first, last = samples_to_datetimes(m.fs, m.first_time, a, b)
    return resampled(m, m.fs, first, b - a + 1)


@ensures("P07", "time.TimeData.subsection")
def td_subsection(self, from_time, to_time):
    return Subsection(from_time=from_time, to_time=to_time).run(self)


def resample_array(self, time_data):
    ratio = Fraction(self.new_fs / time_data.metadata.fs).limit_denominator()
    x = resample_poly(time_data.data.astype(np.float64), ratio.numerator, ratio.denominator, axis=1, window="hamming", padtype="mean")
    return x.astype(time_data.data.dtype)


@ensures("P06", "time.Resample.run", view="ret.data")
def resample_data(self, time_data):
    return resample_array(self, time_data)


@ensures("P06", "time.Resample.run", view="ret.metadata")
def resample_metadata(self, time_data):
    return resampled(time_data.metadata, self.new_fs, time_data.metadata.first_time, resample_array(self, time_data).shape[1])


def decimated(self, time_data):
    x = time_data.data.astype(np.float64)
    for f in self._get_downsample_factors(self.factor):
        if f != 1:
            x = decimate(x, f, axis=1, zero_phase=True)
    return x.astype(time_data.data.dtype)


@ensures("P06 P13", "time.Decimate.run", view="ret.data", opaque=["time.Decimate._get_downsample_factors"])
def decimate_data(self, time_data):
    return decimated(self, time_data)


@ensures("P06 P13", "time.Decimate.run", view="ret.metadata", opaque=["time.Decimate._get_downsample_factors"])
def decimate_metadata(self, time_data):
    return resampled(time_data.metadata, time_data.metadata.fs / self.factor, time_data.metadata.first_time, decimated(self, time_data).shape[1])


@ensures("P13", "time.Decimate._get_downsample_factors", opaque=["time.Decimate._prime_factorisation"])
def downsample_factors(self, downsample_factor):
    if downsample_factor <= self.max_single_factor:
        return [downsample_factor]
    out = []
    val = 1
    for f in self._prime_factorisation(downsample_factor):
        if val * f > self.max_single_factor:
            out.append(val)
            val = 1
        val *= f
    return out + [val]


def shifted(self, time_data):
    m = time_data.metadata
    x = np.arange(0, m.n_samples)
    f = interp1d(x, time_data.data, axis=1, copy=False)
    return f(np.arange(0, m.n_samples - 1) + self.shift / (1 / m.fs)).astype(np.result_type(time_data.data, np.float32))


def check_shift(self, time_data):
    if self.shift >= 1 / time_data.metadata.fs:
        raise ProcessRunError(self.name, "")


@ensures("P06", "time.ShiftTimestamps.run", view="ret.data")
def shift_data(self, time_data):
    check_shift(self, time_data)
    return shifted(self, time_data)


@ensures("P06", "time.ShiftTimestamps.run", view="ret.metadata")
def shift_metadata(self, time_data):
    check_shift(self, time_data)
    m = time_data.metadata
    return resampled(m, m.fs, m.first_time + to_timedelta(self.shift), m.n_samples - 1)
