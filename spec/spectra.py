"""Spectra: access, Fourier transform, evaluation frequencies, smoothing, storage."""
import numpy as np
import scipy.ndimage as ndimage
from scipy import signal
from scipy.fft import next_fast_len, rfftfreq, rfft
from scipy.signal import get_window
from scipy.signal.windows import dpss


@ensures("P17", "spectra.SpectraLevelMetadata.nyquist")
def nyquist(self):
    return self.fs / 2


# ================================================================ access (P16)
def level_data(self, level):
    if level >= self.metadata.n_levels:
        raise ValueError("")
    return self.data[level]


@ensures("P16", "spectra.SpectraData.get_level")
def get_level(self, level):
    return level_data(self, level)


@ensures("P16", "spectra.SpectraData.get_chan")
def get_chan(self, level, chan):
    if chan not in self.metadata.chans:
        raise ChannelNotFoundError(chan, self.metadata.chans)
    return self.data[level][..., self.metadata.chans.index(chan), :]


@ensures("P16", "spectra.SpectraData.get_chans")
def get_chans(self, level, chans):
    for chan in chans:
        if chan not in self.metadata.chans:
            raise ChannelNotFoundError(chan, self.metadata.chans)
    return self.data[level][..., [self.metadata.chans.index(c) for c in chans], :]


@ensures("P16 P17", "spectra.SpectraData.get_freq")
def get_freq(self, level, idx):
    if idx < 0 or idx >= self.metadata.levels_metadata[level].n_freqs:
        raise ValueError("")
    return np.squeeze(self.data[level][..., idx])


@ensures("P17", "spectra.SpectraData.get_mag_phs")
def get_mag_phs(self, level, unwrap):
    x = self.data[level]
    phs = np.angle(x)
    return np.absolute(x), np.unwrap(phs) if unwrap else phs


@ensures("P14 P16", "spectra.SpectraData.get_timestamps", opaque=["window.get_win_starts"])
def get_timestamps(self, level):
    if level < 0 or level >= self.metadata.n_levels:
        raise ValueError("")
    m = self.metadata.levels_metadata[level]
    return get_win_starts(self.metadata.ref_time, m.win_size, m.olap_size, m.fs, m.n_wins, m.index_offset)


# ================================================================ Fourier transform (P17)
def transform(self, m, x):
    if self.detrend is not None:
        x = signal.detrend(x, axis=-1, type=self.detrend)
    w = dpss(m.win_size, 5) if self.win_fnc == "dpss" else get_window(self.win_fnc, m.win_size)
    x = x * w.astype(np.result_type(x.dtype, np.float32))
    return rfft(x, n=next_fast_len(m.win_size, real=True), axis=-1, norm="ortho", workers=self.workers)


@ensures("P17", "spectra.FourierTransform.run", view="ret.data")
def fourier_data(self, win_data):
    return {i: transform(self, win_data.metadata.levels_metadata[i], win_data.get_level(i)) for i in range(win_data.metadata.n_levels)}


def level_freqs(m, freqs):
    return SpectraLevelMetadata(**{**m.dict(), "n_freqs": len(freqs), "freqs": freqs})


def spectra_meta(metadata, levels):
    m = SpectraMetadata(**{**{k: v for k, v in metadata.dict().items() if k != "file_info"}, "levels_metadata": levels})
    m.history = ANY
    return m


@ensures("P17", "spectra.FourierTransform.run", view="ret.metadata")
def fourier_metadata(self, win_data):
    levels = []
    for i in range(win_data.metadata.n_levels):
        m = win_data.metadata.levels_metadata[i]
        freqs = rfftfreq(n=next_fast_len(m.win_size, real=True), d=1.0 / m.fs).tolist()
        levels.append(level_freqs(m, freqs))
        win_data.get_level(i)
    return spectra_meta(win_data.metadata, levels)


# ================================================================ evaluation frequencies (P17)
def at_freqs(freqs, data, eval_freqs):
    pos = np.interp(eval_freqs, freqs, np.arange(len(freqs)))
    lo = np.floor(pos).astype(int)
    hi = np.ceil(pos).astype(int)
    part = (pos - lo).astype(data.dtype)
    d = data[..., hi] - data[..., lo]
    return data[..., lo] + np.squeeze(d[..., np.newaxis, :] * part, axis=-2)


@ensures("P17", "spectra.EvaluationFreqs.run", view="ret.data", opaque=["decimate.DecimationParameters.get_eval_freqs"])
def eval_data(self, dec_params, spec_data):
    out = {}
    for i in range(spec_data.metadata.n_levels):
        m = spec_data.metadata.levels_metadata[i]
        out[i] = at_freqs(np.array(m.freqs), spec_data.get_level(i), np.array(dec_params.get_eval_freqs(i)))
    return out


@ensures("P17", "spectra.EvaluationFreqs.run", view="ret.metadata", partial=True, opaque=["decimate.DecimationParameters.get_eval_freqs"])
def eval_metadata(self, dec_params, spec_data):
    levels = []
    for i in range(spec_data.metadata.n_levels):
        freqs = np.array(dec_params.get_eval_freqs(i)).tolist()
        levels.append(level_freqs(spec_data.metadata.levels_metadata[i], freqs))
    return spectra_meta(spec_data.metadata, levels)


# ================================================================ smoothing (P17)
def smooth_length(self, n):
    length = int(self.length_proportion * n)
    if length % 2 == 0:
        length += 1
    return 1 if length < 1 else length


@ensures("P17", "spectra.SpectraSmootherUniform.run", view="ret.data")
def uniform(self, spec_data):
    return {i: ndimage.uniform_filter1d(spec_data.get_level(i), smooth_length(self, spec_data.metadata.levels_metadata[i].n_freqs), axis=-1)
            for i in range(spec_data.metadata.n_levels)}


@ensures("P17 P27", "spectra.SpectraSmootherGaussian.run", view="ret.data")
def gaussian(self, spec_data):
    return {i: ndimage.gaussian_filter1d(spec_data.get_level(i), self.sigma, axis=-1) for i in range(spec_data.metadata.n_levels)}


@ensures("P17", "spectra.SpectraSmootherUniform.run spectra.SpectraSmootherGaussian.run", view="ret.metadata", partial=True)
def smooth_metadata(self, spec_data):
    m = SpectraMetadata(**spec_data.metadata.dict())
    m.history = ANY
    return m


# ================================================================ histories (P02)
@ensures("P02", "spectra.FourierTransform.run", view="ret.metadata.history.records", partial=True)
def fourier_history(self, win_data):
    return win_data.metadata.history.records + [self._get_record("")]


@ensures("P02", "spectra.EvaluationFreqs.run spectra.SpectraSmootherUniform.run spectra.SpectraSmootherGaussian.run calibrate.SensorCalibrator.run",
         view="ret.metadata.history.records", partial=True)
def spectra_history(self, spec_data):
    return spec_data.metadata.history.records + [self._get_record("")]


# ================================================================ storage (P03, P05, P02)
@ensures("P03 P05 P02", "spectra.SpectraDataWriter.run", view="effects")
def spec_write(self, dir_path, spec_data):
    if dir_path.exists() and not self.overwrite:
        raise WriteError(dir_path, "")
    if not dir_path.exists():
        dir_path.mkdir(parents=True)
    np.savez_compressed(dir_path / "data", **{str(x): y for x, y in spec_data.data.items()})
    m = SpectraMetadata(**spec_data.metadata.dict())
    m.history.records = spec_data.metadata.history.records + [self._get_record(dir_path, type(spec_data))]
    m.write(dir_path / "metadata.json")


@ensures("P03 P29", "spectra.SpectraDataReader.run")
def spec_read(self, dir_path, metadata_only):
    if not dir_path.exists():
        raise ReadError(dir_path, "")
    m = SpectraMetadata.parse_file(dir_path / "metadata.json")
    if metadata_only:
        return m
    npz = np.load(dir_path / "data.npz")
    data = {int(level): npz[level] for level in npz.files}
    m2 = SpectraMetadata(**m.dict())
    m2.history.records = m.history.records + [self._get_record("")]
    return SpectraData(m2, data)
