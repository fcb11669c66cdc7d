def c11(files):
    import itertools
    out=[]
    for a,b in itertools.permutations(files,2):
        out+= [f'dec {a} cs=RGB threads=1 {LIM}', f'again {b}', f'again {a}', f'hdragain {b}', f'again {b}']
    return out
SPECIAL={
 'c21-scheme': dict(cases=lambda fs:[f'{op} {f} kinds=1' for f in fs for op in ('dec','hdr','file')]),
 'c21-magic': dict(cases=lambda fs:[f'{op} {f} kinds=1' for f in fs for op in ('dec','hdr','file')]),
 'c07-dri0': dict(put={'debug':''}),
 'c19-snap': dict(make=['160 160 3 1 0 5'],cases=lambda fs:[f'dec {f} peak=1300000 threads=1 {LIM}' for f in fs]),
 'c05-sse-clamp': dict(put={'rustflags':'--cfg zune_verif_no_avx2'}),
 'c06-uninit': dict(cases=lambda fs:[f'dec {f} cs=GRAY mode={m} threads=1' for f in fs for m in (60,165,0)]),
 'c06-rows': dict(cases=lambda fs:[f'dec {f} cs={c} threads={t} {LIM}' for f in fs for c in ('RGB','GRAY') for t in (1,2,4,16,64,200)]),
 'c09-alloc': dict(cases=lambda fs:[f'{op} {f} mw={w} mh={h}' for f in fs for op in ('dec','hdr') for w in (16,255,65535) for h in (1,8,16,31,65535)]),
 'c19-leak': dict(cases=lambda fs:[f'{op} {f} reps=400 leak=300000 {LIM}' for f in fs for op in ('file','dec','hdr')]),
 'c18-align': dict(put={'rustflags':'--cfg zune_verif_no_avx2','debug':''},make=['40 24 3 0 0 5'],cases=lambda fs:[f'dec {f} cs={c} mode=3 threads=1' for f in fs for c in ('RGB','RGBA')]),
 'c12-ext': dict(make=['24 24 3 0 0 5'],rename='image.dat',cases=lambda fs:[f'{op} {f}' for f in fs for op in ('file','dec','hdr')]),
 'c01-rowjoin': dict(make=['17000 16 1 0 0 5'],cases=lambda fs:[f'dec {f} cs={c} mw=65535 mh=65535' for f in fs for c in ('RGB','YCbCr')]),
 'c06-race': dict(make=['33 800 3 0 0 5'],cases=lambda fs:[f'dec {f} cs=RGB threads=8 reps=200' for f in fs]),
 'c17-limits': dict(cases=lambda fs:[f'dec {f} ms={m} mw=65535 mh=65535 set=1' for f in fs for m in (1,2,3,10,1000)]),
 'c20-dup': dict(make=['24 24 3 0 0 5'],cases=lambda fs:[f'{op} {f} segs=300000 limit=10000' for f in fs for op in ('dec',)]),
 'c20-rst': dict(make=['1600 1600 4 0 1 5'],cases=lambda fs:[f'dec {f} limit=2000' for f in fs]),
 'c11-gray': dict(cases=c11),
 'c17-threads': dict(files=[],cases=lambda fs:[f'opts - threads={n}' for n in (1,2,4,255,256,300,65536,4294967295)]),
 'c05-sse16': dict(put={'rustflags':'--cfg zune_verif_no_avx2'}),
 'c19-threads': dict(keep=['bad.jpg'],files=['bad.jpg'],cases=lambda fs:[f'dec {f} threads=8 reps=20 tasks=20' for f in fs]),
 'c17-strict': dict(files=[],cases=lambda fs:['opts - strict=1 strict=0','opts - strict=0 strict=1','opts - strict=1']),
 'c17-scans': dict(files=[],cases=lambda fs:[f'opts - ms={n}' for n in (1,64,65535,65536,100000)]),
 'c09-swapped': dict(cases=lambda fs:[f'dec {f} mw={a} mh={b} limits=1' for f in fs for a,b in ((1,1),(1,65535),(65535,1),(65535,65535),(8,40),(40,8))]),
 'c09-u8': dict(cases=lambda fs:[f'dec {f} ms={m}' for f in fs for m in (64,100,200,255,256,300,1000)]),
 'c10-graycmyk': dict(cases=lambda fs:[f'dec {f} cs=CMYK' for f in fs]),
 'c11-static': dict(cases=c11),
 'c12-take': dict(make=['24 24 3 0 0 5'],cases=lambda fs:[f'{op} {f} pad={n}' for f in fs for op in('file','dec') for n in (0,1,80)]),
 'c18-upsample': dict(cases=lambda fs:[f'dec {f} cs={c} mode=1 threads=1' for f in fs for c in ('RGB','YCbCr')]),
 'c09-scans': dict(cases=lambda fs:[f'dec {f} ms={m}' for f in fs for m in (1,2,3,4,5,8,16,32,63,64,65,1000)]+[f'dec {f}' for f in fs]),
}
