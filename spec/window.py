"""Windowing: window positions, window data, set-ups and storage."""
import numpy as np
import pandas as pd
from math import floor, ceil
from numpy.lib.stride_tricks import sliding_window_view


# ================================================================ positions (P14)
def duration(win_size, fs):
    return to_timedelta(1 / fs) * float(win_size - 1)


def increment(win_size, olap_size, fs):
    return to_timedelta(1 / fs) * float(win_size - olap_size)


@ensures("P14", "window.win_duration")
def win_duration(win_size, fs):
    return duration(win_size, fs)


@ensures("P14", "window.inc_duration")
def inc_duration(win_size, olap_size, fs):
    return increment(win_size, olap_size, fs)


@ensures("P14", "window.win_to_datetime")
def win_to_datetime(ref_time, global_win, increment):
    return ref_time + global_win * increment


def total_seconds(delta):
    a, b = to_seconds(delta)
    return a + b


def win_of_time(ref_time, time, inc, method):
    if time < ref_time:
        raise ValueError("")
    n = total_seconds(time - ref_time) / total_seconds(inc)
    if n.is_integer():
        return int(n)
    if method == "floor":
        return int(floor(n))
    if method == "ceil":
        return int(ceil(n))
    return int(round(n))


@ensures("P14 P29", "window.datetime_to_win")
def datetime_to_win(ref_time, time, increment, method):
    return win_of_time(ref_time, time, increment, method)


def first_last(ref_time, m, win_size, olap_size):
    d = duration(win_size, m.fs)
    inc = increment(win_size, olap_size, m.fs)
    first = datetime_to_win(ref_time, m.first_time, inc, method="ceil")
    last = datetime_to_win(ref_time, m.last_time, inc, method="floor")
    for attempt in range(2):
        if m.last_time >= ref_time + last * inc + d:
            break
        last = last - 1
    if m.last_time < ref_time + last * inc + d:
        raise ValueError("")
    return first, last


@ensures("P14", "window.get_first_and_last_win", opaque=["window.datetime_to_win"])
def get_first_and_last_win(ref_time, metadata, win_size, olap_size):
    return first_last(ref_time, metadata, win_size, olap_size)


@ensures("P14", "window.get_win_starts")
def get_win_starts(ref_time, win_size, olap_size, fs, n_wins, index_offset):
    return datetime_array_estimate(ref_time + index_offset * increment(win_size, olap_size, fs), fs / (win_size - olap_size), n_wins)


@ensures("P14", "window.get_win_ends")
def get_win_ends(starts, win_size, fs):
    return starts + pd.Timedelta((win_size - 1) * (1 / fs), "s")


@ensures("P14 P15", "window.get_win_table", opaque=["window.get_first_and_last_win", "window.datetime_to_win", "window.get_win_ends"])
def get_win_table(ref_time, metadata, win_size, olap_size):
    fs = metadata.fs
    step = win_size - olap_size
    first, last = get_first_and_last_win(ref_time, metadata, win_size, olap_size)
    n = last - first + 1
    t0 = ref_time + first * increment(win_size, olap_size, fs)
    sample0 = to_n_samples(t0 - metadata.first_time, fs, method="floor") - 1
    local = np.arange(n).astype(int)
    starts = datetime_array_estimate(t0, fs / step, n)
    return pd.DataFrame(data={
        "global": np.arange(first, last + 1),
        "local": local,
        "from_sample": sample0 + local * step,
        "to_sample": sample0 + win_size - 1 + local * step,
        "win_start": starts,
        "win_end": get_win_ends(starts, win_size, fs),
    })


# ================================================================ set-up (P15)
@ensures("P15", "window.WindowSetup.run")
def setup_run(self, n_levels, dec_fs):
    if self.win_sizes is None:
        sizes = []
        for i in range(n_levels):
            size = dec_fs[i] // self.win_factor
            sizes.append(int(self.min_size if size < self.min_size else size))
    else:
        sizes = list(self.win_sizes)
    if len(sizes) < n_levels:
        raise ValueError("")
    if len(sizes) > n_levels:
        sizes = sizes[:n_levels]
    if self.olap_sizes is None:
        olaps = []
        for size in sizes:
            olap = int(size * self.olap_proportion)
            olaps.append(self.min_olap if olap < self.min_olap else olap)
    else:
        olaps = self.olap_sizes
    if len(olaps) < n_levels:
        raise ValueError("")
    if len(olaps) > n_levels:
        olaps = olaps[:n_levels]
    return WindowParameters(n_levels=n_levels, min_n_wins=self.min_n_wins, win_sizes=sizes, olap_sizes=olaps)


def level_ok(self, level):
    if level < 0 or level >= self.n_levels:
        raise ValueError("")


@ensures("P15 P16", "window.WindowParameters.check_level")
def check_level(self, level):
    level_ok(self, level)


@ensures("P15 P16", "window.WindowParameters.get_win_size")
def get_win_size(self, level):
    level_ok(self, level)
    return self.win_sizes[level]


@ensures("P15 P16", "window.WindowParameters.get_olap_size")
def get_olap_size(self, level):
    level_ok(self, level)
    return self.olap_sizes[level]


# ================================================================ windowed data (P16)
def level_data(self, level):
    if level >= self.metadata.n_levels:
        raise ValueError("")
    return self.data[level]


def local_data(self, level, local_win):
    if local_win < 0 or local_win >= self.metadata.levels_metadata[level].n_wins:
        raise ValueError("")
    return level_data(self, level)[local_win]


@ensures("P16", "window.WindowedData.get_level")
def get_level(self, level):
    return level_data(self, level)


@ensures("P16", "window.WindowedData.get_local")
def get_local(self, level, local_win):
    return local_data(self, level, local_win)


@ensures("P16 P14", "window.WindowedData.get_global")
def get_global(self, level, global_win):
    return local_data(self, level, global_win - self.metadata.levels_metadata[level].index_offset)


@ensures("P16", "window.WindowedData.get_chan")
def get_chan(self, level, chan):
    if chan not in self.metadata.chans:
        raise ChannelNotFoundError(chan, self.metadata.chans)
    return level_data(self, level)[..., self.metadata.chans.index(chan), :]


# ================================================================ windowing (P14, P15)
OPAQUE_TABLE = ["window.get_win_table"]


def windows_of(data, table, n_chans, win_size, olap_size):
    view = sliding_window_view(data, window_shape=(n_chans, win_size), writeable=True)
    a = table.loc[0, "from_sample"]
    b = table.loc[table.index[-1], "from_sample"]
    return np.squeeze(view, axis=0)[a:b + 1:win_size - olap_size]


def level_meta(m, table, win_size, olap_size):
    offset = (table["global"] - table["local"]).unique()
    if len(offset) != 1:
        raise ValueError("")
    return WindowedLevelMetadata(fs=m.fs, n_wins=len(table.index), win_size=win_size, olap_size=olap_size, index_offset=offset[0])


def aligned(self, ref_time, win_params, dec_data):
    data = {}
    metas = []
    for i in range(dec_data.metadata.n_levels):
        size, olap = win_params.get_win_size(i), win_params.get_olap_size(i)
        m = dec_data.metadata.levels_metadata[i]
        table = get_win_table(ref_time, m, size, olap)
        n = len(table.index)
        if n < win_params.min_n_wins:
            break
        x = windows_of(dec_data.get_level(i), table, dec_data.metadata.n_chans, size, olap)
        if x.shape[0] != n:
            raise ProcessRunError(self.name, "")
        data[i] = x
        metas.append(level_meta(m, table, size, olap))
    return data, metas


def targeted(self, ref_time, win_params, dec_data):
    data = {}
    metas = []
    for i in range(dec_data.metadata.n_levels):
        m = dec_data.metadata.levels_metadata[i]
        size = int(np.floor(m.n_samples / ((1 - self.olap_proportion) * self.target)))
        if size < self.min_size:
            size = self.min_size
        olap = int(np.floor(self.olap_proportion * size))
        table = get_win_table(ref_time, m, size, olap)
        n = len(table.index)
        if n < win_params.min_n_wins:
            break
        data[i] = windows_of(dec_data.get_level(i), table, dec_data.metadata.n_chans, size, olap)
        metas.append(level_meta(m, table, size, olap))
    return data, metas


def windowed_meta(ref_time, dec_data, metas):
    m = WindowedMetadata(**{**{k: v for k, v in dec_data.metadata.dict().items() if k != "file_info"},
                            "ref_time": ref_time, "fs": [x.fs for x in metas], "n_levels": len(metas), "levels_metadata": metas})
    m.history = ANY
    return m


@ensures("P14 P15", "window.Windower.run", view="ret.data", opaque=["window.get_win_table"])
def windower_data(self, ref_time, win_params, dec_data):
    return aligned(self, ref_time, win_params, dec_data)[0]


@ensures("P14 P15", "window.Windower.run", view="ret.metadata", opaque=["window.get_win_table"])
def windower_metadata(self, ref_time, win_params, dec_data):
    return windowed_meta(ref_time, dec_data, aligned(self, ref_time, win_params, dec_data)[1])


@ensures("P14 P15", "window.WindowerTarget.run", view="ret.data", opaque=["window.get_win_table"])
def target_data(self, ref_time, win_params, dec_data):
    return targeted(self, ref_time, win_params, dec_data)[0]


@ensures("P14 P15", "window.WindowerTarget.run", view="ret.metadata", opaque=["window.get_win_table"])
def target_metadata(self, ref_time, win_params, dec_data):
    return windowed_meta(ref_time, dec_data, targeted(self, ref_time, win_params, dec_data)[1])


@ensures("P02", "window.Windower.run window.WindowerTarget.run", view="ret.metadata.history.records", partial=True, opaque=["window.get_win_table"])
def windower_history(self, ref_time, win_params, dec_data):
    return dec_data.metadata.history.records + [self._get_record("")]


# ================================================================ storage (P03, P05, P02)
@ensures("P03 P05 P02", "window.WindowedDataWriter.run", view="effects")
def win_write(self, dir_path, win_data):
    if dir_path.exists() and not self.overwrite:
        raise WriteError(dir_path, "")
    if not dir_path.exists():
        dir_path.mkdir(parents=True)
    np.savez_compressed(dir_path / "data", **{str(x): y for x, y in win_data.data.items()})
    m = WindowedMetadata(**win_data.metadata.dict())
    m.history.records = win_data.metadata.history.records + [self._get_record(dir_path, type(win_data))]
    m.write(dir_path / "metadata.json")


@ensures("P05", "window.WindowedDataWriter.run decimate.DecimatedDataWriter.run spectra.SpectraDataWriter.run", view="ret")
def refuses(self, dir_path):
    if dir_path.exists() and not self.overwrite:
        raise WriteError(dir_path, "")


@ensures("P03 P29", "window.WindowedDataReader.run", view=["ret"])
def win_read(self, dir_path, metadata_only):
    if not dir_path.exists():
        raise ReadError(dir_path, "")
    m = WindowedMetadata.parse_file(dir_path / "metadata.json")
    if metadata_only:
        return m
    npz = np.load(dir_path / "data.npz")
    data = {int(level): npz[level] for level in npz.files}
    m2 = WindowedMetadata(**m.dict())
    m2.history.records = m.history.records + [self._get_record("")]
    return WindowedData(m2, data)
