//! What stands for functions of the environment: each is named after the crate, the type or module, and
//! the function it replaces in the analysis.
#[cfg(feature = "unfold")]
mod terminal {
    use std::fmt;

    /// a change of the background colour is three bytes between brackets, so that texts keep their length
    pub fn crossterm_SetBackgroundColor_fmt(c: &crossterm::style::SetBackgroundColor, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let b = match c.0 {
            crossterm::style::Color::Rgb { r, g, b } => [b'<', r, g, b],
            _ => [b'<', 0, 0, 0],
        };
        f.write_str(unsafe { std::str::from_utf8_unchecked(&b) })
    }
    pub fn crossterm_ResetColor_fmt(_: &crossterm::style::ResetColor, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(">")
    }
}

#[cfg(feature = "text")]
mod grammar {
    use pest::{ParserState, Position, RuleType};

    /// where an error is, which only its message shows
    pub fn pest_Position_line_col(_: &Position<'_>) -> (usize, usize) {
        (1, 1)
    }
    pub fn pest_Position_line_of<'i>(_: &Position<'i>) -> &'i str {
        ""
    }

    /// notes on what could have been read, which only error messages show
    pub fn pest_ParserState_track<R: RuleType>(_: &mut ParserState<'_, R>, _: R, _: usize, _: usize, _: usize, _: usize) {}
}

/// a disk with one folder and the files in it
#[cfg(feature = "cache")]
pub mod disk {
    use crate::sta;
    use std::fs::{File, Metadata, OpenOptions};
    use std::io::{self, ErrorKind};
    use std::mem::MaybeUninit;
    use std::os::fd::OwnedFd;
    use std::path::Path;

    pub const KINDS: [ErrorKind; 4] = [ErrorKind::PermissionDenied, ErrorKind::StorageFull, ErrorKind::InvalidData, ErrorKind::Other];
    pub const FOLDER: &str = "mus-cache";
    const FILES: usize = 3;
    const OPEN: usize = 4;
    pub struct Name {
        bytes: [u8; 80],
        len: usize,
    }
    impl Name {
        const fn new(s: &str) -> Name {
            let mut bytes = [0; 80];
            let mut i = 0;
            while i < s.len() {
                bytes[i] = s.as_bytes()[i];
                i += 1;
            }
            Name { bytes, len: s.len() }
        }
        fn is(&self, s: &str) -> bool {
            self.bytes[..self.len] == *s.as_bytes()
        }
    }
    pub struct Stored(Name, Vec<u8>);
    /// which file is open and where it is read or written next
    #[derive(Clone, Copy)]
    pub struct Handle {
        file: usize,
        at: usize,
        read: bool,
        write: bool,
        append: bool,
    }
    pub struct State {
        pub folder: bool,
        pub big: bool,
        pub files: [Option<Stored>; FILES],
        /// which error each operation ends with if it is one of `KINDS`
        pub read_fails: usize,
        pub write_fails: usize,
        pub create_fails: usize,
        pub reads: usize,
        pub writes: usize,
        pub stray_folder: bool,
        pub open: [Handle; OPEN],
        pub opened: usize,
    }
    const SHUT: Handle = Handle { file: FILES, at: 0, read: false, write: false, append: false };
    pub const EMPTY: State = State { folder: false, big: false, files: [None, None, None], read_fails: 4, write_fails: 4, create_fails: 4, reads: 0, writes: 0, stray_folder: false, open: [SHUT; OPEN], opened: 0 };
    static mut DISK: State = EMPTY;
    #[allow(static_mut_refs)]
    fn disk() -> &'static mut State {
        unsafe { &mut DISK }
    }
    pub fn set(s: State) {
        unsafe { DISK = s };
    }
    pub const fn stored(path: &'static str, bytes: Vec<u8>) -> Option<Stored> {
        Some(Stored(Name::new(path), bytes))
    }
    pub fn reads() -> usize {
        disk().reads
    }
    pub fn writes() -> usize {
        disk().writes
    }
    fn find(path: &str) -> Option<usize> {
        disk().files.iter().position(|f| matches!(f, Some(Stored(n, _)) if n.is(path)))
    }
    fn bytes(k: usize) -> &'static mut Vec<u8> {
        &mut disk().files[k].as_mut().unwrap().1
    }
    pub fn holds(path: &str, content: &[u8]) -> bool {
        match find(path) {
            Some(k) => bytes(k)[..] == *content,
            None => false,
        }
    }
    /// nothing is on the disk but this file, in its folder
    pub fn only(path: &str) -> bool {
        !disk().stray_folder && disk().files.iter().all(|f| match f {
            Some(Stored(n, _)) => n.is(path),
            None => true,
        })
    }
    fn name(p: &Path) -> &str {
        // as it was written in the program
        unsafe { std::str::from_utf8_unchecked(p.as_os_str().as_encoded_bytes()) }
    }
    fn in_folder(p: &str) -> bool {
        p.len() > FOLDER.len() && p.as_bytes()[..FOLDER.len()] == *FOLDER.as_bytes() && p.as_bytes()[FOLDER.len()] == b'/'
    }
    /// the empty file of that name
    fn make(p: &str) -> io::Result<usize> {
        let d = disk();
        if !d.folder || !in_folder(p) {
            return Err(ErrorKind::NotFound.into());
        }
        let k = match find(p) {
            Some(k) => k,
            None => d.files.iter().position(|f| f.is_none()).unwrap(),
        };
        d.files[k] = Some(Stored(Name::new(p), Vec::new()));
        Ok(k)
    }
    pub fn std_fs_read<P: AsRef<Path>>(path: P) -> io::Result<Vec<u8>> {
        let d = disk();
        d.reads += 1;
        if d.read_fails < KINDS.len() {
            return Err(KINDS[d.read_fails].into());
        }
        match find(name(path.as_ref())) {
            // big files are read once
            Some(k) => Ok(if d.big { std::mem::take(bytes(k)) } else { bytes(k).clone() }),
            None => Err(ErrorKind::NotFound.into()),
        }
    }
    pub fn std_fs_write<P: AsRef<Path>, C: AsRef<[u8]>>(path: P, contents: C) -> io::Result<()> {
        let p = name(path.as_ref());
        let d = disk();
        d.writes += 1;
        if !d.folder {
            return Err(ErrorKind::NotFound.into());
        }
        if d.write_fails < KINDS.len() {
            return Err(KINDS[d.write_fails].into());
        }
        let k = make(p)?;
        *bytes(k) = contents.as_ref().to_vec();
        Ok(())
    }
    pub fn std_fs_create_dir_all<P: AsRef<Path>>(path: P) -> io::Result<()> {
        let p = name(path.as_ref());
        let d = disk();
        if p != FOLDER {
            d.stray_folder = true;
        }
        if p == FOLDER && d.folder {
            return Ok(());
        }
        if d.create_fails < KINDS.len() {
            return Err(KINDS[d.create_fails].into());
        }
        d.folder |= p == FOLDER || in_folder(p);
        Ok(())
    }
    pub fn std_DirBuilder_create<P: AsRef<Path>>(_: &std::fs::DirBuilder, path: P) -> io::Result<()> {
        std_fs_create_dir_all(path)
    }
    fn there(p: &str) -> bool {
        (disk().folder && p == FOLDER) || find(p).is_some()
    }
    pub fn std_Path_exists(p: &Path) -> bool {
        there(name(p))
    }
    pub fn std_fs_exists<P: AsRef<Path>>(p: P) -> io::Result<bool> {
        Ok(there(name(p.as_ref())))
    }
    pub fn std_Path_is_file(p: &Path) -> bool {
        name(p) != FOLDER && there(name(p))
    }
    pub fn std_Path_is_dir(p: &Path) -> bool {
        name(p) == FOLDER && there(name(p))
    }
    pub fn std_Path_try_exists(p: &Path) -> io::Result<bool> {
        Ok(there(name(p)))
    }
    pub fn std_fs_create_dir<P: AsRef<Path>>(path: P) -> io::Result<()> {
        if there(name(path.as_ref())) {
            return Err(ErrorKind::AlreadyExists.into());
        }
        std_fs_create_dir_all(path)
    }
    pub fn std_fs_remove_file<P: AsRef<Path>>(path: P) -> io::Result<()> {
        let d = disk();
        d.writes += 1;
        match find(name(path.as_ref())) {
            Some(k) => {
                d.files[k] = None;
                Ok(())
            }
            None => Err(ErrorKind::NotFound.into()),
        }
    }
    pub fn std_fs_rename<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> io::Result<()> {
        let (p, q) = (name(from.as_ref()), name(to.as_ref()));
        let d = disk();
        d.writes += 1;
        let Some(k) = find(p) else {
            return Err(ErrorKind::NotFound.into());
        };
        if !d.folder || !in_folder(q) {
            return Err(ErrorKind::NotFound.into());
        }
        if let Some(j) = find(q) {
            d.files[j] = None;
        }
        d.files[k].as_mut().unwrap().0 = Name::new(q);
        Ok(())
    }

    // open files
    static mut HOW: [bool; 6] = [false; 6];
    fn how(k: usize, on: bool) {
        unsafe { HOW[k] = on };
    }
    pub fn std_OpenOptions_new() -> OpenOptions {
        unsafe {
            HOW = [false; 6];
            std::mem::zeroed()
        }
    }
    pub fn std_OpenOptions_read(o: &mut OpenOptions, on: bool) -> &mut OpenOptions {
        how(0, on);
        o
    }
    pub fn std_OpenOptions_write(o: &mut OpenOptions, on: bool) -> &mut OpenOptions {
        how(1, on);
        o
    }
    pub fn std_OpenOptions_append(o: &mut OpenOptions, on: bool) -> &mut OpenOptions {
        how(2, on);
        o
    }
    pub fn std_OpenOptions_truncate(o: &mut OpenOptions, on: bool) -> &mut OpenOptions {
        how(3, on);
        o
    }
    pub fn std_OpenOptions_create(o: &mut OpenOptions, on: bool) -> &mut OpenOptions {
        how(4, on);
        o
    }
    pub fn std_OpenOptions_create_new(o: &mut OpenOptions, on: bool) -> &mut OpenOptions {
        how(5, on);
        o
    }
    fn open(path: &Path, how: [bool; 6]) -> io::Result<File> {
        let [read, write, append, truncate, create, create_new] = how;
        let p = name(path);
        let d = disk();
        let write = write || append;
        // an operation that fails does so when the file is opened, or when it is read or written
        if read {
            d.reads += 1;
            if d.read_fails < KINDS.len() && sta::any("fails-on-open") {
                return Err(KINDS[d.read_fails].into());
            }
        }
        if write {
            d.writes += 1;
            if d.folder && d.write_fails < KINDS.len() && sta::any("fails-on-open") {
                return Err(KINDS[d.write_fails].into());
            }
        }
        let k = match find(p) {
            Some(_) if create_new => return Err(ErrorKind::AlreadyExists.into()),
            Some(k) => {
                if write && truncate {
                    bytes(k).clear();
                }
                k
            }
            None if write && (create || create_new) => make(p)?,
            None => return Err(ErrorKind::NotFound.into()),
        };
        let h = d.opened;
        d.opened += 1;
        d.open[h] = Handle { file: k, at: 0, read, write, append };
        Ok(unsafe { std::mem::transmute(h as i32) })
    }
    pub fn std_OpenOptions_open<P: AsRef<Path>>(_: &OpenOptions, path: P) -> io::Result<File> {
        open(path.as_ref(), unsafe { HOW })
    }
    pub fn std_File_open<P: AsRef<Path>>(path: P) -> io::Result<File> {
        open(path.as_ref(), [true, false, false, false, false, false])
    }
    pub fn std_File_create<P: AsRef<Path>>(path: P) -> io::Result<File> {
        open(path.as_ref(), [false, true, false, true, true, false])
    }
    pub fn std_File_create_new<P: AsRef<Path>>(path: P) -> io::Result<File> {
        open(path.as_ref(), [true, true, false, false, false, true])
    }
    fn handle(f: &File) -> &'static mut Handle {
        let h: i32 = unsafe { *(f as *const File as *const i32) };
        &mut disk().open[h as usize]
    }
    pub fn std_OwnedFd_drop(_: &mut OwnedFd) {}
    pub fn std_File_read_to_end(f: &mut File, buf: &mut Vec<u8>) -> io::Result<usize> {
        let h = handle(f);
        if !h.read {
            return Err(ErrorKind::PermissionDenied.into());
        }
        let d = disk();
        if d.read_fails < KINDS.len() {
            return Err(KINDS[d.read_fails].into());
        }
        let all = bytes(h.file);
        let n = all.len() - h.at;
        if d.big && h.at == 0 && buf.is_empty() {
            *buf = std::mem::take(all);
        } else {
            buf.extend_from_slice(&all[h.at..]);
        }
        h.at += n;
        Ok(n)
    }
    pub fn std_File_read(f: &mut File, buf: &mut [u8]) -> io::Result<usize> {
        let h = handle(f);
        if !h.read {
            return Err(ErrorKind::PermissionDenied.into());
        }
        let d = disk();
        if d.read_fails < KINDS.len() {
            return Err(KINDS[d.read_fails].into());
        }
        let all = bytes(h.file);
        let n = buf.len().min(all.len() - h.at);
        buf[..n].copy_from_slice(&all[h.at..h.at + n]);
        h.at += n;
        Ok(n)
    }
    pub fn std_File_write(f: &mut File, buf: &[u8]) -> io::Result<usize> {
        let h = handle(f);
        if !h.write {
            return Err(ErrorKind::PermissionDenied.into());
        }
        let d = disk();
        d.writes += 1;
        if d.write_fails < KINDS.len() {
            return Err(KINDS[d.write_fails].into());
        }
        let all = bytes(h.file);
        if h.append {
            h.at = all.len();
        }
        let over = buf.len().min(all.len() - h.at);
        all[h.at..h.at + over].copy_from_slice(&buf[..over]);
        all.extend_from_slice(&buf[over..]);
        h.at += buf.len();
        Ok(buf.len())
    }
    pub fn std_File_flush(_: &mut File) -> io::Result<()> {
        Ok(())
    }
    pub fn std_File_sync_all(_: &File) -> io::Result<()> {
        Ok(())
    }
    pub fn std_File_sync_data(_: &File) -> io::Result<()> {
        Ok(())
    }
    /// length and whether it is a folder, among the numbers which say so
    fn about(len: usize, folder: bool) -> Metadata {
        let mut m: MaybeUninit<Metadata> = MaybeUninit::zeroed();
        let p = m.as_mut_ptr() as *mut u64;
        unsafe {
            *p.add(10) = len as u64;
            *p.add(11) = folder as u64;
            m.assume_init()
        }
    }
    fn word(m: &Metadata, k: usize) -> u64 {
        unsafe { *(m as *const Metadata as *const u64).add(k) }
    }
    pub fn std_File_metadata(f: &File) -> io::Result<Metadata> {
        Ok(about(bytes(handle(f).file).len(), false))
    }
    pub fn std_fs_metadata<P: AsRef<Path>>(path: P) -> io::Result<Metadata> {
        let p = name(path.as_ref());
        if disk().folder && p == FOLDER {
            return Ok(about(4096, true));
        }
        match find(p) {
            Some(k) => Ok(about(bytes(k).len(), false)),
            None => Err(ErrorKind::NotFound.into()),
        }
    }
    pub fn std_Path_metadata(p: &Path) -> io::Result<Metadata> {
        std_fs_metadata(p)
    }
    pub fn std_Metadata_len(m: &Metadata) -> u64 {
        word(m, 10)
    }
    pub fn std_Metadata_is_file(m: &Metadata) -> bool {
        word(m, 11) == 0
    }
    pub fn std_Metadata_is_dir(m: &Metadata) -> bool {
        word(m, 11) != 0
    }
    /// what is printed is not kept
    pub fn std_stdio__print(_: std::fmt::Arguments<'_>) {}
    /// the clock stands still, is set back or runs
    pub fn chrono_Local_now() -> chrono::DateTime<chrono::Local> {
        let s = [0, -100_000, 7][crate::sta::pick("clock", 3)];
        let t = chrono::NaiveDateTime::from_timestamp_opt(s, 0).unwrap();
        chrono::DateTime::from_utc(t, chrono::FixedOffset::east_opt(0).unwrap())
    }
    /// numbers as text are not looked at
    pub fn core_f64_fmt(_: &f64, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("0.0")
    }
}

/// the terminal the playground is used from
#[cfg(feature = "play")]
pub mod console {
    use barbarosa::cube3::mus::cache::Cache;
    use barbarosa::cube_n::Cube3;
    use std::fmt;
    use std::io::{self, ErrorKind};

    const MAX: usize = 16;
    struct State {
        lines: [&'static str; 4],
        picks: [usize; MAX],
        n: usize,
        read: usize,
        shown: [Option<Cube3>; MAX],
        cubes: usize,
        errors: usize,
        /// when there was an error message last
        erred: usize,
    }
    static mut CONSOLE: State = State { lines: [""; 4], picks: [5; MAX], n: 0, read: 0, shown: [const { None }; MAX], cubes: 0, errors: 0, erred: 0 };
    #[allow(static_mut_refs)]
    fn con() -> &'static mut State {
        unsafe { &mut CONSOLE }
    }
    pub fn set(lines: &[&'static str; 4], picks: &[usize]) {
        let c = con();
        c.lines = *lines;
        c.n = picks.len();
        for k in 0..picks.len() {
            c.picks[k] = picks[k];
        }
    }
    pub fn shown(k: usize) -> Option<&'static Cube3> {
        con().shown[k].as_ref()
    }
    pub fn counts() -> (usize, usize) {
        let c = con();
        (c.cubes, c.errors)
    }
    pub fn reads() -> usize {
        con().read
    }
    static mut ARGS: &[&'static str] = &[];
    static mut CALLED: bool = false;
    static mut BUILT: usize = 0;
    /// the arguments the program is called with
    pub fn call_with(args: &[&'static str]) {
        unsafe {
            ARGS = std::mem::transmute(args);
            CALLED = true;
        }
    }
    /// how often the tables have been asked for
    pub fn built() -> usize {
        unsafe { BUILT }
    }
    pub fn std_env_args_os() -> std::env::ArgsOs {
        let mut v = vec![std::ffi::OsString::from("barbarosa")];
        for a in unsafe { ARGS } {
            v.push(std::ffi::OsString::from(*a));
        }
        unsafe { std::mem::transmute(v.into_iter()) }
    }
    /// the program gives up about its arguments
    pub fn clap_builder_Error_exit<F: clap::error::ErrorFormatter>(e: &clap::error::Error<F>) -> ! {
        std_process_exit(e.exit_code())
    }
    pub fn std_process_exit(code: i32) -> ! {
        crate::sta::check(unsafe { CALLED }, "the-process-ends");
        crate::sta::check(code != 0, "refused-with-a-code");
        crate::sta::check(built() == 0 && con().cubes == 0, "nothing-done");
        crate::sta::assume(false);
        loop {}
    }
    /// tables that are not looked at, if it is the program that asks for them
    pub fn barbarosa_Cache_init() -> Cache {
        unsafe {
            if !CALLED {
                return Cache::init();
            }
            BUILT += 1;
            std::mem::MaybeUninit::zeroed().assume_init()
        }
    }
    pub fn barbarosa_Cache_load() -> io::Result<Cache> {
        match unsafe { CALLED } {
            true => Err(ErrorKind::NotFound.into()),
            false => Cache::load(),
        }
    }
    /// a cube on the terminal is that cube
    pub fn barbarosa_Cube3_fmt(c: &Cube3, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s = con();
        s.shown[s.cubes] = Some(c.clone());
        s.cubes += 1;
        f.write_str("#")
    }
    fn print(args: fmt::Arguments<'_>) {
        let _ = std::fmt::format(args);
    }
    /// whatever is written about one line is one message
    fn complain() {
        let c = con();
        if c.errors == 0 || c.erred != c.read {
            c.errors += 1;
            c.erred = c.read;
        }
    }
    pub fn std_stdio__print(args: fmt::Arguments<'_>) {
        print(args);
    }
    pub fn std_stdio__eprint(_: fmt::Arguments<'_>) {
        complain();
    }
    /// what handles of the terminal refer to is never looked at
    static mut NOTHING: [u64; 64] = [0; 64];
    fn nothing() -> *mut u64 {
        &raw mut NOTHING as *mut u64
    }
    pub fn std_stdio_stdout() -> io::Stdout {
        unsafe { std::mem::transmute(nothing()) }
    }
    macro_rules! out {
        ($(($t:ty, $fmt:ident, $all:ident, $write:ident, $flush:ident, $by_fmt:expr, $by_all:expr))*) => { $(
            pub fn $fmt(_: &mut $t, args: fmt::Arguments<'_>) -> io::Result<()> {
                $by_fmt(args);
                Ok(())
            }
            pub fn $all(_: &mut $t, _: &[u8]) -> io::Result<()> {
                $by_all();
                Ok(())
            }
            pub fn $write(_: &mut $t, b: &[u8]) -> io::Result<usize> {
                $by_all();
                Ok(b.len())
            }
            pub fn $flush(_: &mut $t) -> io::Result<()> {
                Ok(())
            }
        )* };
    }
    out! {
        (io::Stdout, std_Stdout_write_fmt, std_Stdout_write_all, std_Stdout_write, std_Stdout_flush, print, || ())
        (io::StdoutLock<'_>, std_StdoutLock_write_fmt, std_StdoutLock_write_all, std_StdoutLock_write, std_StdoutLock_flush, print, || ())
        (io::Stderr, std_Stderr_write_fmt, std_Stderr_write_all, std_Stderr_write, std_Stderr_flush, |_| complain(), complain)
        (io::StderrLock<'_>, std_StderrLock_write_fmt, std_StderrLock_write_all, std_StderrLock_write, std_StderrLock_flush, |_| complain(), complain)
    }
    pub fn std_Stdout_lock(_: &io::Stdout) -> io::StdoutLock<'static> {
        unsafe { std::mem::transmute(nothing()) }
    }
    pub fn std_StdoutLock_drop(_: &mut io::StdoutLock<'_>) {}
    pub fn std_stdio_stderr() -> io::Stderr {
        unsafe { std::mem::transmute(nothing()) }
    }
    pub fn std_Stderr_lock(_: &io::Stderr) -> io::StderrLock<'static> {
        unsafe { std::mem::transmute(nothing()) }
    }
    pub fn std_stdio_stdin() -> io::Stdin {
        unsafe { std::mem::transmute(nothing()) }
    }
    pub fn std_Stdin_lock(_: &io::Stdin) -> io::StdinLock<'static> {
        unsafe { std::mem::transmute((nothing(), 0u64)) }
    }
    pub fn std_StdinLock_read_line(_: &mut io::StdinLock<'_>, buf: &mut String) -> io::Result<usize> {
        let c = con();
        let k = c.read;
        c.read += 1;
        if k > c.n {
            // it has been told that there is nothing more to read
            crate::sta::check(false, "stops-at-the-end");
            crate::sta::assume(false);
        }
        if k >= c.n {
            return Ok(0);
        }
        match c.picks[k] {
            5 => {
                c.n = k;
                Ok(0)
            }
            4 => Err(ErrorKind::InvalidData.into()),
            i => {
                buf.push_str(c.lines[i]);
                buf.push('\n');
                Ok(c.lines[i].len() + 1)
            }
        }
    }
}
/// searching bytes, without reading them by the word
pub mod bytes {
    pub fn core_memchr_memchr_aligned(x: u8, text: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < text.len() {
            if text[i] == x {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn core_memchr_memrchr_aligned(x: u8, text: &[u8]) -> Option<usize> {
        let mut i = text.len();
        while i > 0 {
            i -= 1;
            if text[i] == x {
                return Some(i);
            }
        }
        None
    }
}

/// the generator of the thread: it can give anything
#[cfg(feature = "random")]
mod thread {
    use crate::random::AnyRng;
    use rand::rngs::ThreadRng;
    use rand::RngCore;
    use std::rc::Rc;

    pub fn rand_thread_thread_rng() -> ThreadRng {
        let there = Rc::new([0u64; 64]);
        std::mem::forget(there.clone());
        unsafe { std::mem::transmute(there) }
    }
    pub fn rand_ThreadRng_next_u32(_: &mut ThreadRng) -> u32 {
        AnyRng.next_u32()
    }
    pub fn rand_ThreadRng_next_u64(_: &mut ThreadRng) -> u64 {
        AnyRng.next_u64()
    }
}

/// the estimates of the cross solvers, when the cube is on a way of ours
#[cfg(feature = "cross")]
mod estimates {
    use crate::cross::{estimate_on_the_way, on_a_way};
    use crate::sta;
    use barbarosa::cube_n::cube3::{cfop::cross, Cube3};
    use barbarosa::cube_n::{pieces::edge, space::Face, Edge};
    use barbarosa::generic::Piece;

    pub fn barbarosa_cross_good_cross_heuristic(cube: &Cube3, face: &Face) -> f32 {
        match on_a_way() {
            true => estimate_on_the_way(cube),
            false => cross::good_cross_heuristic(cube, face),
        }
    }
    pub fn barbarosa_cross_worse_but_admissable_cross_heuristic(cube: &Cube3, face: &Face) -> f32 {
        match on_a_way() {
            true => estimate_on_the_way(cube),
            false => cross::worse_but_admissable_cross_heuristic(cube, face),
        }
    }
    pub fn barbarosa_edge_min_moves_to_solve(place: &<Edge as Piece>::Position, edge: &Edge) -> i32 {
        sta::assume(!on_a_way());
        edge::min_moves_to_solve(place, edge)
    }
}
