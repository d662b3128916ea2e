use paths::{AbsPath, AbsPathBuf, Utf8PathBuf};
use project_model::{DiscoveredManifest, aptos_package::load_from_fs::{LoadedPackage, load_aptos_packages}, dep_graph, project_folders::ProjectFolders};
use std::{collections::BTreeSet, fs};
use vfs::{Vfs, VfsPath, loader::Entry};

fn pkg(root: &str, dir: &str, toml: &str) {
    let d = format!("{root}/{dir}");
    for s in ["sources", "tests", "scripts"] {
        fs::create_dir_all(format!("{d}/{s}")).unwrap();
        fs::write(format!("{d}/{s}/m.move"), "module 0x1::m {}").unwrap();
    }
    fs::write(format!("{d}/Move.toml"), toml).unwrap();
}
fn main() {
    let root = std::env::args().nth(1).unwrap();
    let git = |name: &str| format!("g = {{ git = \"https://x.y/{name}\", rev = \"main\" }}\n");
    pkg(&root, "a_home/.move/https___x_y_g_main", "[package]\nname='g'\n[dependencies]\nh = { local = 'h' }\n");
    pkg(&root, "a_home/.move/https___x_y_g_main/h", "[package]\nname='h'\n[addresses]\nstd='0x1'\n");
    pkg(&root, "ws/a", &format!("[package]\nname='a'\n[addresses]\naa='0x1'\n[dev-addresses]\nbb='0x2'\n[dependencies]\nb = {{ local = '../b' }}\nc0 = {{ local = '../nothere' }}\nc1 = {{ local = '../c' }}\nc2 = {{ local = '../nothing' }}\nc3 = {{ local = '../k' }}\n{}[dev-dependencies]\nd = {{ local = '../d' }}\n", git("g")));
    pkg(&root, "ws/b", "[dependencies]\ne = { local = '../e' }\nk = { local = '../k' }\n");
    pkg(&root, "ws/c", "[package]\nname='c'\n[dependencies]\nd = { local = '../d' }\na = { local = '../a' }\n");
    pkg(&root, "ws/d", "[package]\nname='d'\n");
    pkg(&root, "ws/e", "[package]\nname='e'\n");
    pkg(&root, "ws/k", "[package]\nname='k'\n");
    pkg(&root, "ws/x", "[package]\nname='x'\n[dependencies]\nbad = { local = '../../other/bad' }\nc = { local = '../c' }\n");
    fs::create_dir_all(format!("{root}/other/bad")).unwrap();
    fs::write(format!("{root}/other/bad/Move.toml"), "[package\nname=").unwrap();

    let abs = |p: &str| AbsPathBuf::assert(Utf8PathBuf::from(format!("{root}/{p}")));
    let short = |p: &str| p.strip_prefix(&root).unwrap().trim_start_matches('/').replace("a_home/.move/https___x_y_g_main", "G");
    let manifests = DiscoveredManifest::discover_all(&[abs("ws/x"), abs("ws/a")]);
    assert_eq!(manifests.len(), 2, "workspace manifests {manifests:?}");
    let loaded = load_aptos_packages(manifests);
    let errors = loaded.packages.iter().filter(|p| matches!(p, LoadedPackage::ManifestParseError(_))).count();
    assert_eq!(errors, 1, "manifests that cannot be read");
    let mut packages = loaded.valid_packages();
    packages.sort_by_key(|p| p.display_root());
    let got: BTreeSet<(String, bool)> = packages.iter().map(|p| (short(&p.display_root()), p.is_local())).collect();
    let want: BTreeSet<(String, bool)> = [("G", false), ("G/h", false), ("ws/a", true), ("ws/b", true), ("ws/c", true), ("ws/d", true), ("ws/e", true), ("ws/k", true), ("ws/x", true)].iter().map(|(n, l)| (n.to_string(), *l)).collect();
    assert_eq!(got, want, "packages and which are local");
    assert_eq!(packages.len(), want.len());
    let of = |n: &str| packages.iter().find(|p| short(&p.display_root()) == n).unwrap();
    let deps = |n: &str| -> BTreeSet<String> { of(n).dep_roots().iter().map(|d| short(d.0.as_str())).collect() };
    let set = |l: &[&str]| -> BTreeSet<String> { l.iter().map(|s| s.to_string()).collect() };
    assert_eq!(deps("ws/a"), set(&["ws/b", "ws/c", "G", "G/h", "ws/d", "ws/e", "ws/k", "ws/a"]), "dependencies of a");
    assert_eq!(deps("ws/b"), set(&["ws/e", "ws/k"]));
    assert_eq!(deps("G"), set(&["G/h"]), "dependencies of a git package");
    assert!(!deps("ws/x").contains("other/bad") && deps("ws/x").contains("G/h"), "dependencies of x {:?}", deps("ws/x"));
    assert_eq!(of("ws/a").missing_dependencies.iter().cloned().collect::<BTreeSet<_>>(), set(&["c0", "c2"]), "missing");
    assert_eq!(of("ws/a").named_addresses.len(), 2, "named addresses");
    // folders
    let folders = ProjectFolders::new(&packages);
    for p in &packages {
        let r = p.display_root();
        let mut have = BTreeSet::new();
        for (i, e) in folders.load.iter().enumerate() {
            let Entry::Directories(d) = e else { continue };
            for inc in &d.include {
                for x in &d.extensions {
                    for s in ["", "/sources", "/tests", "/scripts"] {
                        if inc.as_str() == format!("{r}{s}") {
                            have.insert((s, x.clone()));
                            assert_eq!(folders.watch.contains(&i), p.is_local(), "watching {inc}");
                        }
                    }
                }
            }
        }
        assert_eq!(have.len(), 4, "what is loaded of {r}: {have:?}");
    }
    let mut vfs = Vfs::default();
    for p in &packages {
        vfs.files.push(VfsPath::from(p.manifest_path().to_path_buf()));
        vfs.files.push(VfsPath::from(p.content_root().join("sources/m.move")));
    }
    let roots = folders.package_root_config.partition_into_package_roots(&vfs);
    for p in &packages {
        let file = vfs.file_id(&VfsPath::from(p.content_root().join("sources/m.move"))).unwrap().0;
        let man = vfs.file_id(&VfsPath::from(p.manifest_path().to_path_buf())).unwrap().0;
        let r = roots.iter().find(|r| r.file_set.files.values().any(|f| *f == file)).unwrap();
        assert_eq!(r.kind == base_db::package_root::PackageKind::Local, p.is_local(), "kind of {}", p.display_root());
        assert_eq!(r.manifest, Some(man), "manifest of {}", p.display_root());
    }
    // graph
    let id = |vfs: &Vfs, p: &AbsPath| vfs.file_id(&VfsPath::from(p.to_path_buf())).map(|x| x.0);
    let graph = dep_graph::collect(&packages, &mut |p: &AbsPath| id(&vfs, p)).expect("graph");
    assert_eq!(graph.len(), packages.len());
    for p in &packages {
        let m = &graph[&id(&vfs, p.manifest_path()).unwrap()];
        let d: BTreeSet<String> = m.dep_manifest_ids.iter().map(|f| short(vfs.file_path(*f).0.parent().unwrap().as_str())).collect();
        assert_eq!(d, deps(&short(&p.display_root())), "graph entry of {}", p.display_root());
        assert_eq!((&m.package_name, &m.missing_dependencies, &m.named_addresses), (&p.package_name, &p.missing_dependencies, &p.named_addresses));
    }
    // the manifest of e has not arrived yet
    vfs.files.retain(|f| !f.0.as_str().ends_with("ws/e/Move.toml"));
    assert!(dep_graph::collect(&packages, &mut |p: &AbsPath| id(&vfs, p)).is_none(), "a graph without a manifest it needs");
}
