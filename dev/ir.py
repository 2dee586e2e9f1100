import sys; sys.path[:0]=['/verif/rayvc']
import world
w=world.World(); f=w.func(sys.argv[2],sys.argv[1]); print("\n".join(f._body))
