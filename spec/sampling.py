"""Sample / time conversion conventions and datetime handling."""
import numpy as np
import pandas as pd
from math import floor, ceil

OPAQUE = [
    "sampling.to_datetime", "sampling.to_timedelta", "sampling.to_timestamp", "sampling.to_seconds", "sampling.to_n_samples",
    "sampling.sample_to_datetime", "sampling.samples_to_datetimes", "sampling.check_from_time",
    "sampling.check_to_time", "sampling.from_time_to_sample", "sampling.to_time_to_sample", "sampling.datetimes_to_samples",
    "sampling.datetime_array", "sampling.datetime_array_estimate", "sampling.datetime_to_string", "sampling.datetime_from_string",
    "common.get_record",
]


def period(fs):
    return to_timedelta(1 / fs)


# ---- text form ------------------------------------------------------------
@ensures("P09", "sampling.datetime_to_string")
def datetime_to_string(time):
    return time.strftime("%Y-%m-%d %H:%M:%S.%f_%o_%q_%v")


@ensures("P09", "sampling.datetime_from_string")
def datetime_from_string(time):
    return RSDateTime.strptime(time, "%Y-%m-%d %H:%M:%S.%f_%o_%q_%v")


def fields_of(ts):
    """every field down to the nanosecond is carried over"""
    return RSDateTime(ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second, ts.microsecond, ts.nanosecond)


@ensures("P09", "sampling.to_datetime")
def to_datetime(time):
    if isinstance(time, str):
        try:
            return datetime_from_string(time)
        except ValueError:
            return fields_of(pd.Timestamp(time))
    if isinstance(time, datetime):
        return fields_of(pd.Timestamp(time))
    return fields_of(time)


@ensures("P09", "sampling.to_timestamp")
def to_timestamp(time):
    return pd.Timestamp(time.isoformat())


@ensures("P09", "sampling.HighResDateTime.validate")
def validate(cls, val):
    if isinstance(val, RSDateTime):
        return val
    if isinstance(val, str) or isinstance(val, pd.Timestamp) or isinstance(val, datetime):
        return to_datetime(val)
    raise TypeError("")


@ensures("P09", "sampling.to_timedelta")
def to_timedelta(delta):
    if isinstance(delta, int) or isinstance(delta, float):
        whole = floor(delta)
        micro = floor((delta - whole) * 1000000)
        nano = ((delta - whole) * 1000000 - micro) * 1000
        return RSTimeDelta(seconds=whole, microseconds=micro, nanoseconds=0 if nano < 0.0001 and nano != 0 else nano)
    d = delta if isinstance(delta, pd.Timedelta) else pd.Timedelta(delta)
    return RSTimeDelta(days=d.days, seconds=d.seconds, microseconds=d.microseconds, nanoseconds=d.nanoseconds)


# ---- durations and counts ---------------------------------------------------
@ensures("P08", "sampling.to_seconds")
def to_seconds(delta):
    return delta.days * 86400, delta.seconds + delta.microseconds / 1e6 + delta.nanoseconds / 1e9


@ensures("P08", "sampling.to_n_samples")
def to_n_samples(delta, fs, method):
    # both end points of the duration are samples
    days, rest = to_seconds(delta)
    n = (days + rest) * fs + 1
    if n.is_integer():
        return int(n)
    if method == "floor":
        return floor(n)
    if method == "ceil":
        return ceil(n)
    return int(round(n))


@ensures("P08", "sampling.check_sample")
def check_sample(n_samples, sample):
    if 0 <= sample < n_samples:
        return True
    raise ValueError("")


@ensures("P08", "sampling.sample_to_datetime")
def sample_to_datetime(fs, first_time, sample, n_samples):
    if n_samples is not None and not (0 <= sample < n_samples):
        raise ValueError("")
    return first_time + sample * period(fs)


@ensures("P08", "sampling.samples_to_datetimes")
def samples_to_datetimes(fs, first_time, from_sample, to_sample):
    if not from_sample < to_sample:
        raise ValueError("")
    return sample_to_datetime(fs, first_time, from_sample), sample_to_datetime(fs, first_time, to_sample)


@ensures("P08", "sampling.check_from_time")
def check_from_time(first_time, last_time, from_time):
    if last_time < from_time:
        raise ValueError("")
    return first_time if from_time < first_time else from_time


@ensures("P08", "sampling.check_to_time")
def check_to_time(first_time, last_time, to_time):
    if to_time < first_time:
        raise ValueError("")
    return last_time if last_time < to_time else to_time


@ensures("P08", "sampling.from_time_to_sample")
def from_time_to_sample(fs, first_time, last_time, from_time):
    # first sample at or after the requested time
    return to_n_samples(check_from_time(first_time, last_time, from_time) - first_time, fs, "ceil") - 1


@ensures("P08", "sampling.to_time_to_sample")
def to_time_to_sample(fs, first_time, last_time, to_time):
    # last sample at or before the requested time
    return to_n_samples(check_to_time(first_time, last_time, to_time) - first_time, fs, "floor") - 1


@ensures("P08", "sampling.datetimes_to_samples")
def datetimes_to_samples(fs, first_time, last_time, from_time, to_time):
    return from_time_to_sample(fs, first_time, last_time, from_time), to_time_to_sample(fs, first_time, last_time, to_time)


@ensures("P08", "sampling.datetime_array")
def datetime_array(first_time, fs, n_samples, samples):
    if n_samples is None and samples is None:
        raise ValueError("")
    index = samples if n_samples is None else np.arange(n_samples)
    return first_time + index * period(fs)


@ensures("P08", "sampling.datetime_array_estimate")
def datetime_array_estimate(first_time, fs, n_samples, samples):
    if n_samples is None and samples is None:
        raise ValueError("")
    start = pd.to_datetime(first_time.isoformat()) if isinstance(first_time, RSDateTime) else first_time
    dt = pd.Timedelta(1 / fs, "s")
    if n_samples is None:
        return pd.to_datetime(pd.to_datetime(start) + samples * dt)
    return pd.date_range(start=start, periods=n_samples, freq=dt)


@ensures("P09", "sampling.HighResDateTime.__get_validators__", view="yields")
def datetime_validators(cls):
    yield cls.validate
