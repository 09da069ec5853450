import subprocess,os
for s in range(12):
    print(s, subprocess.run(["/opt/venv/bin/python","-W","ignore","-c","""
import pypsa
n=pypsa.Network()
print(list(n.passive_branch_components),list(n.branch_components),list(n.one_port_components))"""],env=dict(os.environ,PYTHONHASHSEED=str(s),MPLBACKEND="Agg"),capture_output=True,text=True).stdout.strip())
