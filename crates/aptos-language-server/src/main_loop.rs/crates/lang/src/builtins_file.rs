// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use base_db::change::FileChanges;
use vfs::{Vfs, VfsPath};

// language=Move
pub const BUILTINS_FILE: &str = r#"
    module 0x0::builtins {
        const __COMPILE_FOR_TESTING__: bool = false;

        const MAX_U8: u8 = 255;
        const MAX_U16: u16 = 65535;
        const MAX_U32: u32 = 4294967295;
        const MAX_U64: u64 = 18446744073709551615;
        const MAX_U128: u128 = 340282366920938463463374607431768211455;
        const MAX_U256: u256 = 115792089237316195423570985008687907853269984665640564039457584007913129639935;

        const MAX_I8: i8 = 127;
        const MAX_I16: i16 = 32767;
        const MAX_I32: i32 = 2147483647;
        const MAX_I64: i64 = 9223372036854775807;
        const MAX_I128: i128 = 170141183460469231731687303715884105727;
        const MAX_I256: i256 = 57896044618658097711785492504343953926634992332820282019728792003956564819967;
        const MIN_I8: i8 = -128;
        const MIN_I16: i16 = -32768;
        const MIN_I32: i32 = -2147483648;
        const MIN_I64: i64 = -9223372036854775808;
        const MIN_I128: i128 = -170141183460469231731687303715884105728;
        const MIN_I256: i256 = -57896044618658097711785492504343953926634992332820282019728792003956564819968;

        /// Removes `T` from address and returns it.
        /// Aborts if address does not hold a `T`.
        native fun move_from<T: key>(addr: address): T acquires T;

        /// Publishes `T` under `signer.address`.
        /// Aborts if `signer.address` already holds a `T`.
        native fun move_to<T: key>(acc: &signer, res: T);

        native fun borrow_global<T: key>(addr: address): &T acquires T;

        native fun borrow_global_mut<T: key>(addr: address): &mut T acquires T;

        /// Returns `true` if a `T` is stored under address
        native fun exists<T: key>(addr: address): bool;

        native fun freeze<S>(mut_ref: &mut S): &S;

        spec native fun max_u8(): num;
        spec native fun max_u64(): num;
        spec native fun max_u128(): num;
        spec native fun global<T: key>(addr: address): T;
        spec native fun old<T>(t: T): T;
        spec native fun update_field<S, F, V>(s: S, fname: F, val: V): S;
        spec native fun TRACE<T>(t: T): T;

        spec native fun concat<T>(v1: vector<T>, v2: vector<T>): vector<T>;
        spec native fun vec<T>(t: T): vector<T>;
        spec native fun len<T>(t: vector<T>): num;
        spec native fun contains<T>(v: vector<T>, e: T): bool;
        spec native fun index_of<T>(v: vector<T>, e: T): num;
        spec native fun range<T>(v: vector<T>): range<num>;
        spec native fun update<T>(v: vector<T>, i: num, t: T): vector<T>;
        spec native fun in_range<T>(v: vector<T>, i: num): bool;

        spec native fun int2bv(i: num): bv;
        spec native fun bv2int(b: bv): num;
    }
"#;

pub fn add_to_vfs(vfs: &mut Vfs) -> FileChanges {
    let builtins_file_id = {
        let builtins_path = VfsPath::new_virtual_path("/builtins.move".to_string());
        vfs.set_file_contents(builtins_path.clone(), Some(BUILTINS_FILE.bytes().collect()));
        let (file_id, _) = vfs.file_id(&builtins_path).unwrap();
        tracing::info!("load `builtins.move` file to {:?}", file_id);
        file_id
    };
    let mut builtins_change = FileChanges::default();
    builtins_change.add_builtins_file(builtins_file_id, BUILTINS_FILE.to_string());
    builtins_change
}
