src=open('/repo/pyuff/pyuff.py').read()
def cut(a,b,frm=0):
    i=src.index(a,frm); j=src.index(b,i); return src[i:j]
rd=cut("        # Extracts the dset\n","        return dset\n\n    def _write_set")
wd=cut("            if set_type == 15:\n","        except:\n            fh.close()\n            # take back")
N=[15,18,55,58,82,151,164,1858,2400,2411,2412,2414,2420,2429,2467]
M=[n for n in N if n!=58]
imp="_SUPPORTED_SETS = ["
V=[]
def v(name,*pairs): V.append((name,pairs))
v('reader table',(imp,"_READERS = {%s}\n\n"%', '.join('%d: _extract%d'%(n,n) for n in M)+imp),(rd,'''        set_type = int(self._set_types[int(n)])
        if set_type == 58:
            dset = _extract58(block_data, header_only=header_only)
        elif set_type in _READERS:
            dset = _READERS[set_type](block_data)
        else:
            dset['type'] = self._set_types[int(n)]
'''))
v('reader table get',(imp,"_READERS = {%s}\n\n"%', '.join('%d: _extract%d'%(n,n) for n in M)+imp),(rd,'''        set_type = self._set_types[int(n)]
        reader = _READERS.get(set_type)
        if reader is not None:
            dset = reader(block_data)
        elif set_type == 58:
            dset = _extract58(block_data, header_only=header_only)
        else:
            dset = {'type': set_type}
'''))
v('writer table',(wd,'''            writers = {%s}
            if set_type == 58:
                _write58(fh, dset, mode, _filename=self._filename, force_double=force_double)
            elif set_type in writers:
                writers[set_type](fh, dset)
'''%', '.join('%d: _write%d'%(n,n) for n in M)))
v('writer table lambda',(wd,'''            writers = {%s,
                58: lambda f, d: _write58(f, d, mode, _filename=self._filename, force_double=force_double)}
            writer = writers.get(set_type)
            if writer:
                writer(fh, dset)
'''%', '.join('%d: _write%d'%(n,n) for n in M)))
v('match',(wd,'            match set_type:\n'+''.join('                case %d:\n                    _write%d(fh, dset%s)\n'%(n,n,'' if n!=58 else ', mode, _filename=self._filename, force_double=force_double') for n in N)+'                case _:\n                    pass\n'))
v('globals',(rd,'''        set_type = int(self._set_types[int(n)])
        if str(set_type) not in _SUPPORTED_SETS:
            return {'type': self._set_types[int(n)]}
        extract = globals()['_extract%d' % set_type]
        if set_type == 58:
            dset = extract(block_data, header_only=header_only)
        else:
            dset = extract(block_data)
'''))
v('write mode each',(cut("        if mode.lower() == 'overwrite':\n            # overwrite mode; first set","    def _read_set"),'''        mode = mode.lower()
        if mode not in ('add', 'overwrite'):
            raise Exception('Unknown mode: ' + mode)
        for i, dset in enumerate(dsets):
            self._write_set(dset, mode if i == 0 else 'add', force_double=force_double)

'''))
v('write pop first',(cut("        if mode.lower() == 'overwrite':\n            # overwrite mode; first set","    def _read_set"),'''        modes = {'overwrite': ['overwrite'] + ['add'] * (n_sets - 1), 'add': ['add'] * n_sets}
        if mode.lower() not in modes:
            raise Exception('Unknown mode: ' + mode)
        for dset, m in zip(dsets, modes[mode.lower()]):
            self._write_set(dset, m, force_double=force_double)

'''))
v('isinstance',("        if (not type(dsets).__name__ == 'list'):","        if not isinstance(dsets, list):"))
v('read comprehension',(cut("        if setn is None:\n            read_range","        if len(dset) == 1:\n"),'''        if setn is None:
            setn = list(range(self._n_sets))
        elif not isinstance(setn, list):
            setn = [setn]
        try:
            dset = [self._read_set(n, header_only=header_only) for n in setn]
        except Exception:
            raise Exception('Error when reading data-set(s).')
'''))
v('read with',(cut("        try:\n            fh = open(self._filename, 'rb')\n        except:\n            raise Exception('Cannot access the file: ' + self._filename + ' to read","        # Extracts the dset\n"),'''        start, end = self._block_ind[n]
        with open(self._filename, 'rb') as fh:
            fh.seek(start)
            block_data = fh.read(end + 1 - start)
        if self._set_types[int(n)] != 58:
            block_data = block_data.decode('utf-8', errors='replace')
'''))
v('read whole',(cut("                si = self._block_ind[n][0]  # start","            except:\n                fh.close()\n                raise Exception('Error reading data-set #"),'''                si, ei = int(self._block_ind[n, 0]), int(self._block_ind[n, 1])
                content = fh.read()
                block_data = content[si:ei + 1]
                if self._set_types[int(n)] != 58:
                    block_data = block_data.decode('utf-8', errors='replace')
'''))
v('size by stat',(cut("                    with open(self._filename, 'rb') as fh:\n                        data","                fh = open(self._filename, 'at'"),'''                    size = os.path.getsize(self._filename)
                    if size:
                        with open(self._filename, 'rb') as fh:
                            fh.seek(size - 1)
                            unterminated = fh.read(1) not in (b'\\n', b'\\r')
'''))
v('seek end',(cut("                    with open(self._filename, 'rb') as fh:\n                        data","                fh = open(self._filename, 'at'"),'''                    with open(self._filename, 'rb') as fh:
                        fh.seek(0, os.SEEK_END)
                        size = fh.tell()
                        if size > 0:
                            fh.seek(-1, os.SEEK_END)
                            unterminated = fh.read(1) not in [b'\\n', b'\\r']
'''))
v('endswith',("                    unterminated = data[-1:] not in (b'', b'\\n', b'\\r')","                    unterminated = len(data) > 0 and not data.endswith((b'\\n', b'\\r'))"))
v('open helper',(cut("        if mode.lower() == 'overwrite':\n            # overwrite mode\n            try:","        try:\n            # Actual writing"),'''        fh, size = self._open_to_write(mode)
'''),("    def _write_set(self, dset,",'''    def _open_to_write(self, mode):
        mode = mode.lower()
        if mode not in ('overwrite', 'add'):
            raise Exception('Unknown mode: ' + mode)
        try:
            if mode == 'overwrite':
                return open(self._filename, 'wt', encoding='utf-8'), 0
            data = b''
            if os.path.exists(self._filename):
                with open(self._filename, 'rb') as fh:
                    data = fh.read()
            fh = open(self._filename, 'at', encoding='utf-8')
            if data and data[-1] not in (10, 13):
                fh.write('\\n')
            return fh, len(data)
        except Exception:
            raise Exception('Cannot access the file: ' + self._filename + ' to write to.')

    def _write_set(self, dset,'''))
v('dispatch helper',(wd,'''            self._dispatch(fh, set_type, dset, mode, force_double)
'''),("    def _write_set(self, dset,",'''    def _dispatch(self, fh, set_type, dset, mode, force_double):
'''+wd.replace('\n    ','\n')[4:]+'''
    def _write_set(self, dset,'''))
v('text truncate',(cut("            with open(self._filename, 'r+b') as fh:\n","            self.refresh()\n            raise"),'''            os.truncate(self._filename, size)
'''))
v('finally',(cut("        except:\n            fh.close()\n            # take back","if __name__"),'''        except Exception:
            fh.close()
            with open(self._filename, 'rb+') as fh2:
                fh2.seek(size)
                fh2.truncate()
            self.refresh()
            raise
        fh.close()
        self.refresh()

'''))
v('refresh in finally',(cut("        except:\n            fh.close()\n            # take back","if __name__"),'''        except:
            fh.close()
            with open(self._filename, 'r+b') as out:
                out.truncate(size)
            raise
        else:
            fh.close()
        finally:
            self.refresh()

'''))
v('nan helper',("            if 'data' in dset.keys():\n                dset['data'] = np.nan_to_num(dset['data'])","            if dset.get('data') is not None:\n                dset.update(data=np.nan_to_num(dset['data']))"))
v('guard range',("        if (n > self._n_sets - 1) or (n < 0):","        if not 0 <= n < self._n_sets:"))
v('status property',("            if not self.refresh():\n                raise Exception('Cannot read from the file: ' + self._filename)","            ok = self.refresh()\n            if ok is not True:\n                raise Exception('Cannot read from the file: %s' % self._filename)"))
v('single unwrap',("        if len(dset) == 1:\n            dset = dset[0]\n        return dset","        return dset[0] if len(dset) == 1 else dset"))
v('no data',("        if n_sets < 1:\n","        if not dsets:\n"))
if __name__=='__main__':
    import sys,os,shutil,subprocess,concurrent.futures as cf
    pids=sys.argv[1].split(','); pat=sys.argv[2] if len(sys.argv)>2 else ''
    jobs=[(p,n,ps) for n,ps in V if pat in n for p in pids]
    def go(a):
        pid,n,ps=a
        d='/tmp/w/m/u_%s_%s'%(pid,n.replace(' ','_'))
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        shutil.copytree('/repo/pyuff',d+'/pyuff')
        s=src
        for o,w in ps:
            if s.count(o)<1: return a,'NOT APPLICABLE'
            s=s.replace(o,w,1)
        try: compile(s,'x','exec')
        except SyntaxError as e: return a,'SYNTAX %s'%e
        open(d+'/pyuff/pyuff.py','w').write(s)
        r0=subprocess.run(['timeout','100','python3-vt','-m','engine.search',pid,d+'/s.json','--seconds','3','--seed','7'],cwd=d,env=dict(os.environ,VERIF_REPO=d,PYTHONPATH='/verif:'+d),capture_output=True,text=True)
        import json
        try: j=json.load(open(d+'/s.json')); c='CHANGED '+str(j['fail'])[:150] if j['fail'] else ''
        except Exception as e: c='NOSEARCH '+r0.stderr[-200:]
        r=subprocess.run(['timeout','600','python3-vt','-m','engine.verify',pid,d+'/o.json','--jobs','2','-v'],cwd='/verif',env=dict(os.environ,VERIF_REPO=d),capture_output=True,text=True)
        tail=r.stdout.strip().split('\n')
        fails=[x for x in tail if x.startswith('FAILED')][:1]
        why=[tail[tail.index(x)+1] for x in fails]
        return a,c+tail[-1][:60]+' '+' '.join(fails)[:150]+' '+' '.join(why)[:250]
    with cf.ThreadPoolExecutor(3) as ex:
        for a,r in ex.map(go,jobs): print(a[0],a[1],'=>',r,flush=True)
