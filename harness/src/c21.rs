use crate::{check, entries, spec::*, vp::*};
use crate::disk::*;
use compact_thrift_parquet::{get_metadata_chunk, ParquetError};

const N: usize = b(20, 28);

/// the metadata that a file contains: its range, or whether at least the marker is right
fn oracle(f: &[u8]) -> Result<(usize, usize), bool> {
    if f.len() < 8 {
        return Err(true);
    }
    let e = f.len() - 8;
    let t = &f[e..];
    if (t[4] ^ 0x50) | (t[5] ^ 0x41) | (t[6] ^ 0x52) | (t[7] ^ 0x31) != 0 {
        return Err(false);
    }
    let n = t[0] as u64 | (t[1] as u64) << 8 | (t[2] as u64) << 16 | (t[3] as u64) << 24;
    if n > e as u64 {
        return Err(true);
    }
    let n = concrete(n) as usize;
    Ok((e - n, e))
}

fn judge(f: &[u8], r: &Result<Vec<u8>, ParquetError>) {
    match (oracle(f), r) {
        (Ok((s, e)), Ok(v)) => {
            check!(same(v, &f[s..e]), "the metadata is not the bytes before the footer");
            reach(0);
        }
        (Ok(_), Err(_)) => fail("metadata of a well-formed file is not returned"),
        (Err(_), Ok(_)) => fail("metadata of a malformed file is returned"),
        (Err(true), Err(e)) => {
            check!(!matches!(e, ParquetError::InvalidMagic), "a short file with the right marker is reported as having a wrong one");
            reach(1);
        }
        (Err(false), Err(e)) => {
            check!(matches!(e, ParquetError::InvalidMagic), "a wrong marker is not reported as such");
            reach(2);
        }
    }
}

entries! {
    h_c21_free, 3, "files of 0 to 20 (thorough: 28) arbitrary bytes" => {
        let mut b = [0; N];
        let n = range(0, N);
        fill(&mut b[..n]);
        let f = &b[..n];
        alloc_cap(512);
        let r = get_metadata_chunk(&mut Disk::new(f));
        judge(f, &r);
        if let Err(e) = &r {
            obs(pcode(e));
        }
    }
    h_c21_cursor, 3, "std::io::Cursor over 0 to 12 arbitrary bytes, at any position" => {
        let mut b = [0; 12];
        let n = range(0, 12);
        fill(&mut b[..n]);
        let f = &b[..n];
        let mut c = std::io::Cursor::new(f);
        c.set_position(nd64());
        let r = get_metadata_chunk(&mut c);
        judge(f, &r);
    }
    h_c21_length, 2, "right marker, any announced length, files of 8 to 40 bytes; no allocation beyond the file's size" => {
        let mut b = [0; 40];
        let n = range(8, 40);
        for i in 0..n {
            b[i] = i as u8;
        }
        fill(&mut b[n - 8..n - 4]);
        b[n - 4..n].copy_from_slice(b"PAR1");
        alloc_cap(n as u64);
        let r = get_metadata_chunk(&mut Disk::new(&b[..n]));
        judge(&b[..n], &r);
    }
    h_c21_huge, 2, "files of any size up to 2^63 bytes whose footer announces any length; no allocation beyond the file's size" => {
        let mut t = [0; 8];
        fill(&mut t[..4]);
        t[4..].copy_from_slice(b"PAR1");
        let n = t[0] as u64 | (t[1] as u64) << 8 | (t[2] as u64) << 16 | (t[3] as u64) << 24;
        let len = nd64();
        assume(len >= 8 && len <= i64::MAX as u64);
        // longer metadata than this is not read byte by byte here
        assume(n > len - 8 || n > 64);
        alloc_cap(len);
        let mut d = Disk::new(&t);
        d.len = len;
        let r = get_metadata_chunk(&mut d);
        match r {
            Ok(v) => {
                check!(n <= len - 8, "metadata of a malformed file is returned");
                check!(v.len() as u64 == n && d.got == 8 + n && d.pos == len - 8, "the metadata is not the bytes before the footer");
                std::mem::forget(v);
                reach(0);
            }
            Err(e) => {
                check!(n > len - 8, "metadata of a well-formed file is not returned");
                check!(!matches!(e, ParquetError::InvalidMagic), "a short file with the right marker is reported as having a wrong one");
                reach(1);
            }
        }
    }
    h_c21_fault, 2, "a file of 14 bytes with arbitrary contents and 0 to 6 bytes of metadata: each operation fails with one of 6 kinds, or is interrupted; complete or single-byte reads" => {
        let mut b = [0; 14];
        fill(&mut b[..6]);
        let n = range(0, 6);
        b[6] = n as u8;
        b[10..].copy_from_slice(b"PAR1");
        let mut d = Disk::new(&b);
        d.f = Faults { at: nd8(), kind: choose(6) as usize, intr: nd8(), mode: choose(2), ops: 0, fired: false };
        let kind = d.f.kind;
        let r = get_metadata_chunk(&mut d);
        if d.f.fired {
            check!(matches!(&r, Err(e) if pcode(e) == 2000 + kcode(KINDS[kind])), "a failed operation does not surface as that error");
            reach(0);
        } else {
            check!(matches!(&r, Ok(v) if same(v, &b[6 - n..6])), "short or interrupted reads change the metadata");
            reach(1);
        }
    }
    h_c21_big, 2, "files with 255 to 257, 4095 to 4097, 65535 to 65537 or 1000000 (thorough: or 20000000) bytes of metadata, some of them symbolic, behind 0, 1 or 4 bytes; whole or with one byte less in front than announced; reads of any size or at most 4096 bytes" => {
        let n = match choose(4) { 0 => range(255, 257), 1 => range(4095, 4097), 2 => range(65535, 65537), _ => if T && choose(2) == 0 { 20_000_000 } else { 1_000_000 } };
        let p = [0, 1, 4][choose(3) as usize];
        let mut f = vec![0x11; p + n + 8];
        f[p] = nd8();
        f[p + n / 2] = nd8();
        f[p + n - 1] = nd8();
        for i in 0..4 {
            f[p + n + i] = (n >> (8 * i)) as u8;
        }
        f[p + n + 4..].copy_from_slice(b"PAR1");
        let short = p == 0 && choose(2) == 0;
        let mut d = Disk::new(&f[short as usize..]);
        d.whole = true;
        d.f.mode = 2 * choose(2);
        let r = get_metadata_chunk(&mut d);
        match r {
            Ok(v) => {
                check!(!short, "metadata of a malformed file is returned");
                check!(v == f[p..p + n], "the metadata is not the bytes before the footer");
                reach(0);
            }
            Err(e) => {
                check!(short, "metadata of a well-formed file is not returned");
                check!(!matches!(e, ParquetError::InvalidMagic), "a short file with the right marker is reported as having a wrong one");
                reach(1);
            }
        }
    }
}
