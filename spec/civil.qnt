/// Civil time: the proleptic Gregorian calendar over Unix seconds.
module civil {
  import fixed.* from "./fixed"

  type Civil = { y: int, m: int, d: int, h: int, mi: int, s: int, dow: int }

  pure def isLeap(y: int): bool = (y % 4 == 0 and y % 100 != 0) or y % 400 == 0

  /// days from 1970-01-01 to y-m-d (y > 0)
  pure def daysFromCivil(y: int, m: int, d: int): int = {
    pure val yy = if (m <= 2) y - 1 else y
    pure val era = fdiv(yy, 400)
    pure val yoe = yy - era * 400
    pure val mp = (m + 9) % 12
    pure val doy = (153 * mp + 2) / 5 + d - 1
    pure val doe = yoe * 365 + yoe / 4 - yoe / 100 + doy
    era * 146097 + doe - 719468
  }

  pure def civilOf(t: int): Civil = {
    pure val days = fdiv(t, 86400)
    pure val sod = t - days * 86400
    pure val z = days + 719468
    pure val era = fdiv(z, 146097)
    pure val doe = z - era * 146097
    pure val yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365
    pure val doy = doe - (365 * yoe + yoe / 4 - yoe / 100)
    pure val mp = (5 * doy + 2) / 153
    pure val d = doy - (153 * mp + 2) / 5 + 1
    pure val m = if (mp < 10) mp + 3 else mp - 9
    pure val y = yoe + era * 400 + (if (m <= 2) 1 else 0)
    // day of week, 0 = Monday; 1970-01-01 was a Thursday
    { y: y, m: m, d: d, h: sod / 3600, mi: (sod / 60) % 60, s: sod % 60, dow: fmod(days + 3, 7) }
  }

  pure def unixOf(y: int, m: int, d: int, h: int, mi: int, s: int): int =
    daysFromCivil(y, m, d) * 86400 + h * 3600 + mi * 60 + s

  pure val CUMDAYS: List[int] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
  /// day of the year, 1 for 1 January
  pure def dayOfYear(c: Civil): int =
    c.d + CUMDAYS[c.m - 1] + (if (isLeap(c.y) and c.m > 2) 1 else 0)

  /// last Sunday of a month: its day number since the epoch
  pure def lastSunday(y: int, m: int): int = {
    pure val last = (if (m == 12) daysFromCivil(y + 1, 1, 1) else daysFromCivil(y, m + 1, 1)) - 1
    last - fmod(last + 4, 7)
  }
  /// n-th Sunday of a month
  pure def nthSunday(y: int, m: int, n: int): int = {
    pure val first = daysFromCivil(y, m, 1)
    first + fmod(3 - first, 7) + 7 * (n - 1)
  }

  // ------------------------------------------------------------- time zones
  /// Zones, by number. UTC offsets in seconds at a UTC instant, with the
  /// daylight-saving rules in force in 2008-2036.
  ///   0 UTC   1 Europe/Madrid   2 America/New_York   3 Asia/Kathmandu (+5:45)
  ///   4 Australia/Lord_Howe (+10:30/+11)   5 America/St_Johns (-3:30/-2:30)
  ///   6 Pacific/Kiritimati (+14)   7 Pacific/Niue (-11)   8 fixed +05:30
  ///   9 fixed -03:15   10 Asia/Tokyo (+9)   11 Europe/London
  ///   12 fixed +00:19:32 (once the time of Amsterdam)   13 Africa/Monrovia (-0:44:30 from 1919 to 7 January 1972)
  pure def dstEU(t: int): bool = {
    pure val y = civilOf(t).y
    t >= lastSunday(y, 3) * 86400 + 3600 and t < lastSunday(y, 10) * 86400 + 3600
  }
  /// std: standard offset. DST from 2nd Sunday of March 02:00 standard time to
  /// 1st Sunday of November 02:00 daylight time (local)
  pure def dstUS(t: int, std: int): bool = {
    pure val y = civilOf(t + std).y
    t >= nthSunday(y, 3, 2) * 86400 + 7200 - std and
    t < nthSunday(y, 11, 1) * 86400 + 7200 - std - 3600
  }
  /// Lord Howe: standard from 1st Sunday of April 02:00 (local daylight, +11),
  /// half-hour daylight saving from 1st Sunday of October 02:00 (standard)
  pure def dstLH(t: int): bool = {
    pure val y = civilOf(t + 37800).y
    not(t >= nthSunday(y, 4, 1) * 86400 + 7200 - 39600 and
        t < nthSunday(y, 10, 1) * 86400 + 7200 - 37800)
  }
  pure val NZONES: int = 12           // of 2008-2036, whole minutes
  pure val ALLZONES: int = 14
  pure val MONROVIA: int = unixOf(1972, 1, 7, 0, 44, 30)
  pure def utcOffset(z: int, t: int): int =
    if (z == 1) (if (dstEU(t)) 7200 else 3600)
    else if (z == 2) (if (dstUS(t, -18000)) -14400 else -18000)
    else if (z == 3) 20700
    else if (z == 4) (if (dstLH(t)) 39600 else 37800)
    else if (z == 5) (if (dstUS(t, -12600)) -9000 else -12600)
    else if (z == 6) 50400
    else if (z == 7) -39600
    else if (z == 8) 19800
    else if (z == 9) -11700
    else if (z == 10) 32400
    else if (z == 11) (if (dstEU(t)) 3600 else 0)
    else if (z == 12) 1172
    else if (z == 13) (if (t < MONROVIA) -2670 else 0)
    else 0
}
