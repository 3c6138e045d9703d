import sys,json; sys.path.insert(0,'/verif/harness')
import engine
s,i=engine.harvest_constants()
json.dump({"strs":s,"ints":i},open('/verif/corpus/constants.json','w'),indent=0)
print(len(s),len(i))
