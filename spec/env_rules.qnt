/// The process in which the library is used (C30): settings that belong to the
/// user. Nobody but the user changes them.
module env_rules {
  pure val SETTINGS: List[str] = ["numpy error handling", "warning filters", "random", "numpy random", "working directory",
    "environment variables", "pandas options", "xarray options", "numpy print options", "decimal context", "local time zone",
    "threads of numexpr", "limits of the interpreter", "locale", "logging", "output written", "files in the working directory",
    "threads alive", "import path"]
  pure val NS: int = 19
  /// how many values the user gives to each; those of one value cannot be set
  pure val VALUES: List[int] = [3, 3, 3, 3, 2, 3, 3, 3, 2, 2, 4, 3, 2, 2, 2, 1, 1, 1, 2]
  pure val NREQ: int = 14

  type Op =
    | Change({ i: int, v: int })      // the user changes a setting
    | Ask({ r: int })              // and asks the library
    | Refuse({ r: int })             // for something that is refused
    | Load                         // imports the library
  type Proc = List[int]            // the values of the settings
  pure val START: Proc = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]

  pure def apply(p: Proc, op: Op): Proc = match op {
    | Change(s) => p.replaceAt(s.i, s.v)
    | Ask(_) => p
    | Refuse(_) => p
    | Load => p
  }
  pure def opOf(kind: int, i: int, v: int): Op =
    if (kind == 0) Change({ i: i, v: v }) else if (kind == 1) Ask({ r: i }) else if (kind == 2) Refuse({ r: i }) else Load
}
