"""Decimation: evaluation frequencies, levels, decimated data and its storage."""
import numpy as np


# ================================================================ evaluation frequencies (P12)
@ensures("P12", "decimate.get_eval_freqs_size")
def get_eval_freqs_size(fs, n_freqs):
    return fs / 4 / np.power(2, np.arange(0, n_freqs) / 2)


@ensures("P12 P29", "decimate.get_eval_freqs_min")
def get_eval_freqs_min(fs, f_min):
    f0 = fs / 4
    if f_min <= 0:
        raise ValueError("")
    if f_min > f0:
        raise ValueError("")
    out = []
    i = 0
    while f0 / np.power(2, i / 2) >= f_min:
        out.append(f0 / np.power(2, i / 2))
        i += 1
    return np.array(out)


@ensures("P12 P29", "decimate.get_eval_freqs", opaque=["decimate.get_eval_freqs_min", "decimate.get_eval_freqs_size"])
def get_eval_freqs(fs, f_min, n_freqs):
    if f_min is not None:
        return get_eval_freqs_min(fs, f_min)
    if n_freqs is None:
        raise ValueError("")
    return get_eval_freqs_size(fs, n_freqs)


# ================================================================ set-up
def setup_freqs(self, fs):
    n = self.n_levels * self.per_level
    if self.eval_freqs is None:
        return get_eval_freqs(fs, n_freqs=n)
    freqs = np.array(self.eval_freqs)
    if freqs.size != n:
        raise ValueError("")
    if np.any(freqs > fs / 2):
        raise ValueError("")
    return freqs


def level_factor(self, fs, f_max):
    if 4 * f_max > fs:
        return 1
    factor = 1
    rate = fs
    while rate / self.div_factor >= 4 * f_max:
        rate = rate / self.div_factor
        factor *= self.div_factor
    return factor


@ensures("P12", "decimate.DecimationSetup.run", opaque=["decimate.get_eval_freqs"])
def setup_run(self, fs):
    freqs = setup_freqs(self, fs)
    table = freqs.reshape(self.n_levels, self.per_level)
    factors = [level_factor(self, fs, np.max(table[i])) for i in range(self.n_levels)]
    return DecimationParameters(fs=fs, n_levels=self.n_levels, per_level=self.per_level, min_samples=self.min_samples,
                                eval_freqs=freqs.tolist(), dec_factors=factors)


# ================================================================ parameters: derived lists and look-ups
@ensures("P12 P13", "decimate.DecimationParameters@dec_increments")
def set_dec_increments(cls, value, values):
    if value is None:
        d = np.ones(shape=values["n_levels"], dtype=int)
        d[1:] = values["dec_factors"][:-1]
        return np.divide(values["dec_factors"], d).astype(int).tolist()
    return value


@ensures("P12 P13", "decimate.DecimationParameters@dec_fs")
def set_dec_fs(cls, value, values):
    if value is None:
        return (values["fs"] * np.reciprocal(np.array(values["dec_factors"]).astype(float))).tolist()
    return value


def level_check(self, level):
    if level < 0 or level >= self.n_levels:
        raise ValueError("")


@ensures("P12 P16", "decimate.DecimationParameters.check_level")
def check_level(self, level):
    level_check(self, level)


@ensures("P12 P16", "decimate.DecimationParameters.check_eval_idx")
def check_eval_idx(self, idx):
    if idx < 0 or idx >= self.per_level:
        raise ValueError("")


def level_freqs(self, level):
    level_check(self, level)
    a = level * self.per_level
    return self.eval_freqs[a:a + self.per_level]


def level_freq(self, level, idx):
    level_check(self, level)
    if idx < 0 or idx >= self.per_level:
        raise ValueError("")
    return self.eval_freqs[level * self.per_level + idx]


@ensures("P12 P16", "decimate.DecimationParameters.get_eval_freqs")
def get_eval_freqs_level(self, level):
    return level_freqs(self, level)


@ensures("P12 P16", "decimate.DecimationParameters.get_eval_freq")
def get_eval_freq(self, level, idx):
    return level_freq(self, level, idx)


@ensures("P12 P16", "decimate.DecimationParameters.__getitem__")
def params_getitem(self, args):
    if isinstance(args, int):
        return level_freqs(self, args)
    return level_freq(self, args[0], args[1])


@ensures("P12 P16", "decimate.DecimationParameters.get_fs")
def get_fs(self, level):
    level_check(self, level)
    return self.dec_fs[level]


@ensures("P12 P16", "decimate.DecimationParameters.get_total_factor")
def get_total_factor(self, level):
    level_check(self, level)
    return self.dec_factors[level]


@ensures("P12 P16", "decimate.DecimationParameters.get_incremental_factor")
def get_incremental_factor(self, level):
    level_check(self, level)
    return self.dec_increments[level]


@ensures("P12", "decimate.DecimationParameters.to_numpy")
def to_numpy(self):
    return np.array(self.eval_freqs).reshape(self.n_levels, self.per_level)


# ================================================================ decimated data
@ensures("P16", "decimate.DecimatedData.get_level")
def get_level(self, level):
    if level >= self.metadata.n_levels:
        raise ValueError("")
    return self.data[level]


@ensures("P08 P16", "decimate.DecimatedData.get_timestamps")
def dec_timestamps(self, level, samples, estimate):
    if level < 0 or level >= self.metadata.n_levels:
        raise ValueError("")
    m = self.metadata.levels_metadata[level]
    f, fs = m.first_time, m.fs
    if samples is None:
        return datetime_array_estimate(f, fs, n_samples=m.n_samples) if estimate else datetime_array(f, fs, n_samples=m.n_samples)
    return datetime_array_estimate(f, fs, samples=samples) if estimate else datetime_array(f, fs, samples=samples)


def next_level(self, time_data, factor):
    if factor == 1:
        return time_data
    if self.resample:
        return Resample(new_fs=time_data.metadata.fs / factor).run(time_data)
    return Decimate(factor=factor, max_single_factor=self.max_single_factor).run(time_data)


def levels_of(self, dec_params, time_data):
    data = {}
    metas = []
    for i in range(dec_params.n_levels):
        new = next_level(self, time_data, dec_params.dec_increments[i])
        if new.metadata.n_samples < dec_params.min_samples:
            break
        time_data = new
        data[i] = new.data
        metas.append(DecimatedLevelMetadata(**new.metadata.dict()))
    return data, metas


@ensures("P13", "decimate.Decimator.run", view="ret.data", virtual=["time.Resample.run", "time.Decimate.run"])
def decimator_data(self, dec_params, time_data):
    return levels_of(self, dec_params, time_data)[0]


@ensures("P13 P06", "decimate.Decimator.run", view="ret.metadata", virtual=["time.Resample.run", "time.Decimate.run"])
def decimator_metadata(self, dec_params, time_data):
    metas = levels_of(self, dec_params, time_data)[1]
    m = DecimatedMetadata(**{**time_data.metadata.dict(), "fs": [x.fs for x in metas], "n_levels": len(metas), "levels_metadata": metas})
    m.history = ANY
    return m


@ensures("P02", "decimate.Decimator.run", view="ret.metadata.history.records")
def decimator_history(self, dec_params, time_data):
    return time_data.metadata.history.records + [self._get_record("")]


# ================================================================ storage (P03, P05, P02)
@ensures("P03 P05 P02", "decimate.DecimatedDataWriter.run", view=["effects"])
def dec_write(self, dir_path, dec_data):
    if dir_path.exists() and not self.overwrite:
        raise WriteError(dir_path, "")
    if not dir_path.exists():
        dir_path.mkdir(parents=True)
    np.savez_compressed(dir_path / "data", **{str(x): y for x, y in dec_data.data.items()})
    m = DecimatedMetadata(**dec_data.metadata.dict())
    m.history.records = dec_data.metadata.history.records + [self._get_record(dir_path, type(dec_data))]
    m.write(dir_path / "metadata.json")


@ensures("P03 P29", "decimate.DecimatedDataReader.run", view=["ret"])
def dec_read(self, dir_path, metadata_only):
    if not dir_path.exists():
        raise ReadError(dir_path, "")
    m = DecimatedMetadata.parse_file(dir_path / "metadata.json")
    if metadata_only:
        return m
    npz = np.load(dir_path / "data.npz")
    data = {int(level): npz[level] for level in npz.files}
    m2 = DecimatedMetadata(**m.dict())
    m2.history.records = m.history.records + [self._get_record("")]
    return DecimatedData(m2, data)


# ================================================================ descriptions derived from the parameters
@ensures("P13", "decimate.DecimatedLevelMetadata.dt window.WindowedLevelMetadata.dt")
def level_dt(self):
    return 1 / self.fs


@ensures("P12", "decimate.DecimationParameters.to_dataframe")
def params_to_dataframe(self):
    df = pd.DataFrame(data=self.to_numpy())
    df["fs"] = self.dec_fs
    df["factors"] = self.dec_factors
    df["increments"] = self.dec_increments
    df.index.name = "decimation level"
    return df
