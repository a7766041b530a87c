import sys; sys.path.insert(0,'/verif/bin')
import vbuild
b=vbuild.Builder('fast'); 
import subprocess,glob,concurrent.futures as cf
with cf.ThreadPoolExecutor(8) as ex: objs=list(ex.map(b.obj,vbuild.lib_sources()))
subprocess.run(['g++','-pthread','-o','/tmp/ut/ut']+glob.glob('/tmp/ut/o/*.o')+objs+['-lgtest','-lgmock']+vbuild.LIBS+["-lutil"],check=False)
