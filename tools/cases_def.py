# C01
case('C01','C01File','every file of the given length',sweep=dict(len=[0,5,12,27,28]))
case('C01','C01Dir','one field of one directory record arbitrary (file of about 500 bytes)',sweep=dict(t=list(range(13)),what=[0,1,3]))
case('C01','C01Dir','',sweep=dict(t=[0,6],what=[2,4]))
case('C01','C01Head','54 arbitrary bytes')
case('C01','C01Counts','maxp version and numGlyphs, numberOfHMetrics arbitrary',sweep=dict(maxp=[0,1],hhea=[0,1],t=[0,9,11,12]))
case('C01','C01Loca','n glyphs, offsets up to max',sweep=dict(n=[2],long=[0,1],over=[0,6],max=[12]))
case('C01','C01Loca','n glyphs, offsets up to max',sweep=dict(n=[2,3],long=[0,1],over=[0,6],max=[24]),tier='thorough')
case('C01','C01LocaWild','boundary offsets',sweep=dict(long=[0,1]))
case('C01','C01Name','one part of the naming table arbitrary',sweep=dict(what=[0,1,2,3,4,5],format=[0,1],last=[1]))
case('C01','C01Name','',sweep=dict(what=[0,2,3],format=[1],last=[0]),tier='thorough')
case('C01','C01Post','tail',sweep=dict(n=[1,2],tail=[0,3]))
case('C01','C01Post','tail',sweep=dict(n=[1],tail=[5]))
case('C01','C01Post','tail',sweep=dict(n=[1,2],tail=[5,8]),tier='thorough')
case('C01','C01PostNames','names',sweep=dict(n=[1],st=[2]))
case('C01','C01PostNames','names',sweep=dict(n=[2],st=[2]),tier='thorough')
case('C01','C01PostNames','names',sweep=dict(n=[1,2],st=[4]),tier='thorough')
case('C01','C01OS2','any version, length 0..100')
case('C01','C01CmapHead','',sweep=dict(n=[1]))
case('C01','C01Cmap4','',sweep=dict(n=[1],w=[2],g=[0,2]))
case('C01','C01Cmap4','',params=dict(n=2,w=2,g=0))
case('C01','C01Cmap4','',params=dict(n=2,w=2,g=2),tier='thorough')
case('C01','C01Cmap4','',params=dict(n=1,w=2,g=2,len=1))
case('C01','C01Cmap4Wide','')
case('C01','C01Cmap6','',sweep=dict(len=[8,12],pid=[1]))
case('C01','C01Cmap12','',sweep=dict(n=[1]))
case('C01','C01Cmap12','',sweep=dict(n=[2]),tier='thorough')
case('C01','C01Cmap0','')
case('C01','C01Trunc','',sweep=dict(long=[0,1]))
case('C06','C06Hmtx','n glyphs',sweep=dict(n=[4],k=[1,2,3,4,5],opt=[0,1,2]),reach=['done'])
case('C06','C06Hmtx','n glyphs',sweep=dict(n=[1],k=[1],opt=[0,1]),reach=['done'])
case('C06','C06Hmtx','n glyphs',sweep=dict(n=[6],k=[6],opt=[0,1]),reach=['done'])
case('C06','C06Many','',sweep=dict(opt=[0,1],n=[300],k=[290,300]),reach=['done'])
# C02
case('C02','C02Sums','recorded checksum of one table and the adjustment arbitrary',sweep=dict(t=[-1,0,2,4,5],shape=[2]),reach=['valid','invalid'])
case('C02','C02Sums','',sweep=dict(t=[0,3,7,9,12],shape=[0]),reach=['valid','invalid'])
case('C02','C02Extra','',sweep=dict(len=[0,1,2,3,4,5],what=[0],shape=[2]),reach=['valid'])
case('C02','C02Extra','',sweep=dict(len=[5,8],what=[1,2],near=[1],shape=[2]),reach=['valid'])
case('C02','C02Extra','',sweep=dict(len=[5,8],what=[1,2],shape=[2]),reach=['valid'],tier='thorough')
case('C02','C02Valid','',sweep=dict(t=[0,1,2,3,4,5,6,8],shape=[0,5]),reach=['valid'])
case('C02','C02Valid','',sweep=dict(t=[7],shape=[0,5]),reach=['valid'],tier='thorough')
case('C02','C02Flip','',sweep=dict(shape=[2,0],step=[4],first=[0,1,2,3]),reach=['rejected'])
case('C02','C02Big','',sweep=dict(at=[0,4095,4096,8999],t=[0,1]),reach=['rejected'])
# C03
case('C03','C03Write','',sweep=dict(shape=[0,1,2,3,4,5,6,7],t=[0,1,2,3,4,5,6,8]),reach=['done'])
case('C03','C03Write','',sweep=dict(shape=[0,1,5],t=[7]),reach=['done'],tier='thorough')
case('C03','C03Present','',sweep=dict(long=[0,1],rev=[0,1]),reach=['done'])
case('C03','C03Input','',sweep=dict(shape=list(range(8))),reach=['done'])
case('C03','C03Derived','',sweep=dict(shape=list(range(8)),op=list(range(7))),reach=['done'])
case('C03','C03Len','',sweep=dict(long=[0,1]),reach=['done'])
case('C03','C03Big','',sweep=dict(t=[1,2,3],len=[4096,5000,9002]),reach=['done'])
# C04
case('C04','C04Head','',sweep=dict(shape=[0,2,3],magic=[1]),reach=['done'])
case('C04','C04Head','',sweep=dict(shape=[2],magic=[0]),reach=['done'])
case('C04','C04Hhea','',sweep=dict(shape=[0,2],ver=[0,1]),reach=['done'])
case('C04','C04Maxp','',sweep=dict(shape=[0,2],v05=[0]),reach=['done'])
case('C04','C04Maxp','',sweep=dict(shape=[0,2],v05=[1]))
case('C04','C04OS2','',sweep=dict(v=[0,1,2,3,4,5]),reach=['done'])
case('C04','C04Post','',sweep=dict(v=[1,2,25,3]),reach=['done'])
# C05
case('C05','C05Data','',sweep=dict(long=[0,1],lens=[0,1,2,3,4,5],lead=[0]),reach=['done','query'])
case('C05','C05Data','',sweep=dict(long=[0,1],lens=[0,1,2],lead=[2,6],trail=[0,3]),reach=['done','query'])
case('C05','C05Loca','',sweep=dict(long=[0,1],n=[1,2],max=[8]),reach=['done'])
case('C05','C05Query','',sweep=dict(long=[0,1]),reach=['done','query'])
case('C05','C05Big','',params=dict(long=0,size=40000),reach=['done'])
case('C05','C05Big','',params=dict(long=0,size=33000),reach=['done'])
case('C05','C05Big','',params=dict(long=1,size=33000),reach=['done'])
case('C05','C05Many','',sweep=dict(long=[0,1],at=[255,256]),reach=['done'])
# C07
case('C07','C07Ids','',sweep=dict(n=[0,1,2,3],format=[0,1]),reach=['done'])
case('C07','C07Ids','',sweep=dict(n=[0,1,2],format=[1],langs=[0,1,2]),reach=['done'])
case('C07','C07Strings','',sweep=dict(len=[0,2],pid=[0,1,2,3],format=[0,1]),reach=['done'])
case('C07','C07Shared','',sweep=dict(pad=[0,3],format=[0,1],maxlen=[3]),reach=['done'])
case('C07','C07Big','',reach=['done'])

# C08
case('C08','C08Fmt4','1 to 3 segments of at most w codes, arbitrary starts, ends, deltas, glyph array; 5 glyphs; every BMP code',sweep=dict(k=[1],w=[2,3],g=[0,2],pid=[3],eid=[1]),reach=['done'])
case('C08','C08Fmt4','',params=dict(k=2,w=1,g=0,pid=0,eid=3),reach=['done'])
case('C08','C08Fmt4','',params=dict(k=1,w=2,g=2,pid=3,eid=10),reach=['done'])
case('C08','C08Fmt4','',params=dict(k=2,w=2,g=2,pid=3,eid=1),reach=['done'],tier='thorough')
case('C08','C08Fmt4','',params=dict(k=3,w=2,g=0,pid=3,eid=1),reach=['done'],tier='thorough')
case('C08','C08Fmt4','',params=dict(k=2,w=2,g=0,pid=0,eid=3),reach=['done'],tier='thorough')
case('C08','C08Last','',reach=['done'])
case('C08','C08Fmt0','',params=dict(pid=1,eid=0),reach=['done'])
case('C08','C08Fmt0','',params=dict(pid=0,eid=3),reach=['done'])
case('C08','C08Fmt6','',sweep=dict(k=[1,3]),params=dict(pid=1,eid=0),reach=['done'])
case('C08','C08Fmt6','',sweep=dict(k=[0,3]),params=dict(pid=3,eid=1),reach=['done'])
case('C08','C08Fmt12','',sweep=dict(k=[1],w=[1,2,4],over=[0]),params=dict(pid=3,eid=10),reach=['done'])
case('C08','C08Fmt12','',sweep=dict(k=[2],w=[1],over=[0,1]),params=dict(pid=0,eid=4),reach=['done'])
case('C08','C08Fmt12','',tier='thorough',sweep=dict(k=[2],w=[2],over=[0,1]),params=dict(pid=0,eid=4),reach=['done'])
case('C08','C08Many','',reach=['done'])
case('C08','C08Other','',reach=['done'])
# C09
case('C09','C09Fmt4','',sweep=dict(k=[1],w=[2],g=[0,2]),reach=['done'])
case('C09','C09Fmt4','',params=dict(k=2,w=1,g=0),reach=['done'])
case('C09','C09Mix','',sweep=dict(mix=[0,1,3],sym=[0,4,6,12]),reach=['done'])
case('C09','C09Mix','',sweep=dict(mix=[2],sym=[6]),reach=['done'])
case('C09','C09Mix','',sweep=dict(mix=[4],sym=[0]),reach=['done'])
case('C09','C09Big','',reach=['done'])
# C10
case('C10','C10Order','',sweep=dict(decoy=[0,1],rev=[0,1],dup=[0,1]),reach=['done'])
case('C10','C10Again','',sweep=dict(rev=[0,1]),reach=['done'])
case('C10','C10None','',reach=['done'])
# C11
case('C11','C11Refs','',sweep=dict(kind=[0,1,2,3,4,5],req=[1],long=[0]),reach=['done'])
case('C11','C11Refs','',sweep=dict(kind=[2,4],req=[2],long=[1]),reach=['done'])
case('C11','C11Refs','',sweep=dict(kind=[2],req=[1],metrics=[1]),reach=['done'])
case('C11','C11Refs','',sweep=dict(kind=[0],req=[2],long=[0,1],low=[1]),reach=['done'],tier='thorough')
case('C11','C11Refs','',sweep=dict(kind=[2],req=[0]),reach=['done'])
case('C11','C11Runes','',sweep=dict(req=[1]),reach=['done'])
case('C11','C11Many','',sweep=dict(long=[0,1]),reach=['done'])
# C12
case('C12','C12Maps','',sweep=dict(maps=[0,1,2,3,4],req=[1],long=[0],post=[0]),reach=['done'])
case('C12','C12Maps','',sweep=dict(maps=[4],req=[0,1],long=[1],post=[1]),reach=['done'])
case('C12','C12Maps','',sweep=dict(maps=[1,3],req=[2],long=[1],post=[1]),reach=['done'],tier='thorough')
case('C11','C11Refs','',sweep=dict(kind=[0],req=[2],long=[0]),reach=['done'])
case('C11','C11Refs','',sweep=dict(kind=[6],req=[1],long=[0]),reach=['done'])
case('C11','C11Refs','',sweep=dict(kind=[6],req=[2],long=[1],low=[1]),reach=['done'],tier='thorough')
case('C11','C11Refs','',sweep=dict(kind=[2],req=[3],low=[1]),reach=['done'],tier='thorough')
case('C12','C12Maps','',sweep=dict(maps=[0,1,2,3],req=[1],sym=[1]),reach=['done'])
# C13
case('C13','C13Maps','',sweep=dict(maps=[0,1,2,3,4],sym=[0],long=[0,1]),reach=['done'])
case('C13','C13Maps','',sweep=dict(maps=[0,1,2,3],sym=[1],long=[0]),reach=['done'])
case('C13','C13Glyphs','',sweep=dict(shape=list(range(8)),metrics=[0]),reach=['done'])
case('C13','C13Glyphs','',sweep=dict(shape=[0,5],metrics=[1]),reach=['done'])
case('C13','C13Many','',sweep=dict(k=[256],long=[0]),reach=['done'])
case('C13','C13Many','',sweep=dict(k=[300,280,200],long=[0,1]),reach=['done'],tier='thorough')
# C14
case('C14','C14Seq','',sweep=dict(shape=list(range(8)),op=list(range(7)),op2=[0,2,4,5]))
case('C14','C14Seq','',sweep=dict(shape=[0,1,5],op=[0,1],op2=[5],op3=[0,1,5]),reach=['done'])
case('C14','C14Seq','',sweep=dict(shape=list(range(8)),op=list(range(7)),op2=[1,3,6]),tier='thorough')
case('C14','C14Seq','',sweep=dict(shape=[0,1,4,5,7],op=[0,1,2,4,5],op2=[0,1,4,5],op3=[0,1,4]),tier='thorough')
case('C14','C14Comp','',sweep=dict(kind=[0],long=[0,1],maps=[1],op=[1]),reach=['done'],tier='thorough')
case('C14','C14Comp','',sweep=dict(kind=[2],long=[0,1],maps=[1],op=[1]),reach=['done'])
case('C14','C14Comp','',sweep=dict(kind=[2],maps=[0,2,3],op=[0]),reach=['done'])
case('C14','C14Comp','',sweep=dict(kind=[2],metrics=[1],op=[0,1]),reach=['done'])
# C15
case('C15','C15Seq','',sweep=dict(shape=[0,1,5],op=[0,1,3],op2=[0,1,4,5]),reach=['done'])
case('C15','C15Seq','',sweep=dict(shape=[2,3,4,6,7],op=[0,1,6],op2=[0,5]),reach=['done'])
case('C15','C15Seq','',sweep=dict(shape=[0,1],op=[0,2],op2=[1,2,3],pre=[1]),reach=['done'],tier='thorough')
case('C15','C15Comp','',sweep=dict(kind=[2],maps=[0],op=[1]),reach=['done'])
case('C15','C15Comp','',sweep=dict(kind=[2],maps=[1,2,3],op=[1]),reach=['done'],tier='thorough')
case('C15','C15Comp','',sweep=dict(kind=[2],metrics=[1],op=[0,1]),reach=['done'])
case('C15','C15Comp','',sweep=dict(kind=[0],maps=[1],op=[0,1]),reach=['done'],tier='thorough')
case('C15','C15Repeat','',sweep=dict(kind=[0,2],maps=[4],op=[0,1],op2=[0,1]),reach=['done'])
case('C15','C15Repeat','',sweep=dict(shape=[0,5],op=[0,1,3],op2=[0,1]),reach=['done'])
case('C15','C15Self','',sweep=dict(shape=[0,1,5],t=[0,1,2,3,4,5,6]),reach=['done'])
# C16
case('C16','C16Read','',sweep=dict(shape=[2],part=[0,1],eof=[0,1],chunk=[1<<20]),reach=['failed','passed'])
case('C16','C16Read','',sweep=dict(shape=[0],part=[0],eof=[0],chunk=[1<<20]),reach=['failed','passed'])
case('C16','C16Read','',sweep=dict(shape=[2],part=[0],eof=[0],chunk=[7],max=[700]),reach=['failed','passed'])
case('C16','C16Seek','',sweep=dict(shape=[0,2,3,5]),reach=['failed','passed'])
case('C16','C16Chunk','',sweep=dict(shape=[0,1,3,5],chunk=[1,3]),reach=['done'])
case('C16','C16Trunc','',sweep=dict(shape=[2,0]),reach=['cut','whole'])
case('C16','C16Write','',sweep=dict(shape=[0,2,5],mode=[0,1,2]),reach=['fits','short'])
case('C16','C16Write','',sweep=dict(shape=[0],mode=[0,1],derived=[1]),reach=['fits','short'])
case('C16','C16WriteAt','',sweep=dict(shape=[0,2]),reach=['done'])
# C17
case('C17','C17Write','',sweep=dict(shape=list(range(8)),t=[0,1,2,3,4,5,6,8]))
case('C17','C17Write','',sweep=dict(shape=list(range(8)),t=[7]),tier='thorough')
case('C17','C17Derived','',sweep=dict(shape=[0,1,5,6,7],op=[0,1,2,3,4]),reach=['done'])
# C18
case('C18','C18Hint','',sweep=dict(shape=[2,0],op=[-1,0,1,3,4,5]),reach=['done'])
case('C18','C18Hint','',sweep=dict(shape=[1],op=[0,1],op2=[0,1,4,5]),reach=['done'])
case('C18','C18Len','',sweep=dict(len=[0,1,2,3,5,255,256,4095,4097]),reach=['done'])
# C19
case('C19','C19Prune','',sweep=dict(shape=[0],names=[0,1,2],split=[0],t=[1]),reach=['done'])
case('C19','C19Prune','',sweep=dict(shape=[1,3,4,5,6,7],names=[1],split=[1],t=[0,3]),reach=['done'])
case('C19','C19Prune','',sweep=dict(shape=[0],names=[1],op=[0,1,5],t=[0]),reach=['done'])
case('C19','C19Prune','',sweep=dict(shape=[1],names=[3],split=[1],t=[1,5]),reach=['done'],tier='thorough')
case('C19','C19After','',sweep=dict(shape=list(range(8)),op=[0,1,3,4,5]))
# C20
case('C20','C20Utf16','',sweep=dict(n=[1],range=[0],pid=[3],eid=[1]),reach=['done'])
case('C20','C20Utf16','',sweep=dict(n=[1],range=[0],pid=[0],eid=[3],ends=[1]),reach=['done'])
case('C20','C20Utf16','',sweep=dict(n=[1],range=[3],pid=[3],eid=[0,10],ends=[0,1]),reach=['done'])
case('C20','C20Utf16','',sweep=dict(n=[1],range=[3],pid=[0],eid=[0,1,2,4,6],ends=[0,1]),reach=['done'])
case('C20','C20Utf16','',sweep=dict(n=[2],range=[2,3,4],pid=[3],eid=[1]),reach=['done'])
case('C20','C20Utf16','',sweep=dict(n=[3],range=[4],pid=[0],eid=[3],ends=[1]),reach=['done'],tier='thorough')
case('C20','C20Utf16','',sweep=dict(n=[2],range=[1],pid=[3],eid=[1]),reach=['done'],tier='thorough')
case('C20','C20Mac','',sweep=dict(n=[0,1],ends=[0,1]),reach=['done'])
case('C20','C20Mac','',sweep=dict(n=[2]),reach=['done'])
case('C20','C20First','',sweep=dict(n=[1,2,3,4],format=[0,1]),reach=['found','none'])
case('C20','C20List','',sweep=dict(n=[0,1,2,3],format=[0,1]),reach=['done'])
case('C20','C20Kinds','',sweep=dict(k=list(range(8))),reach=['done'])
case('C20','C20None','',reach=['done'])
# C21
case('C21','C21V2','',sweep=dict(names=[3],n=[4],at=[0,1,2,3]),reach=['accepted','rejected'])
case('C21','C21V2','',sweep=dict(names=[4],n=[12],at=[0,10,11]),reach=['accepted','rejected'])
case('C21','C21V2','',sweep=dict(names=[3],n=[4],at=[1,3],two=[1]),reach=['accepted','rejected'])
case('C21','C21Custom','',sweep=dict(max=[4],long=[0,63,64,127,128,255]),reach=['done'])
case('C21','C21Count','',sweep=dict(v=[2,25],more=[0,3]),reach=['accepted','rejected'])
case('C21','C21V25','',sweep=dict(n=[3],at=[0,1,2]),reach=['done'])
case('C21','C21V25','',sweep=dict(n=[11],at=[10]),reach=['done'])
case('C21','C21V25','',sweep=dict(n=[3],at=[1],two=[1]),reach=['done'],tier='thorough')
case('C21','C21V1','',reach=['accepted','rejected'])
case('C21','C21V3','',sweep=dict(tail=[0,1,4]),reach=['done'])
case('C21','C21Short','',reach=['done'])
# C22
case('C22','C22Text','',sweep=dict(n=[0,1,2]),reach=['done'])
case('C22','C22Keep','',sweep=dict(n=[0,1,2,3,4,5]),reach=['done'])
case('C22','C22KeepDoc','',sweep=dict(n=[1]),reach=['done'])
case('C22','C22Doc','',reach=['done'])
case('C22','C22DocText','',sweep=dict(n=[1]),reach=['in','out'])
case('C22','C22DocRound','',sweep=dict(n=[1]),reach=['done'])
# C23
case('C23','C23Present','',sweep=dict(op=list(range(12)),only=[0]),reach=['done'])
case('C23','C23Present','',sweep=dict(op=[0,1,2,9,10],only=[1],long=[1]),reach=['done'])
case('C23','C23Present','',sweep=dict(op=[0,1],op2=[0,1,7,9]),reach=['done'],tier='thorough')
case('C23','C23Present','',sweep=dict(op=[0,1,10],all=[1]),reach=['done'],tier='thorough')
case('C23','C23Shape','',sweep=dict(shape=list(range(8)),op=list(range(12))),reach=['done'])
case('C23','C23Shape','',sweep=dict(shape=[0,5],op=[0,1,8],op2=list(range(12))),reach=['done'])
case('C23','C23Loca','',sweep=dict(long=[0],over=[0,4],op=[0,1,5,10],max=[8]))
case('C23','C23Loca','',sweep=dict(long=[1],over=[4],op=[0,1,5,10],max=[6]))
case('C23','C23Loca','',sweep=dict(long=[1],over=[0],op=[0,1,5,10],max=[8]),tier='thorough')
case('C23','C23Loca','',sweep=dict(long=[0,1],none=[1],op=[0,1,5,10],max=[8]))
case('C23','C23Counts','',sweep=dict(maxp=[1],hhea=[1],head=[1],few=[6],op=[0,1,5,9,10]))
case('C23','C23Glyph','',sweep=dict(n=[2,9,10,12,14,16,18],op=[1]),reach=['done'])
case('C23','C23Glyph','',sweep=dict(n=[12,16],op=[0,10],comp=[0,1]),reach=['done'])
case('C23','C23Name','',sweep=dict(n=[1],len=[0,1,3],format=[0,1],op=[6,7,10]))
case('C23','C23Post','',sweep=dict(version=[0,1],op=[0,1,7,10]))
case('C23','C23Cmap','',sweep=dict(format=[0,4,6,12],op=[0,1,2,3,7,10]))
# C24
case('C24','C24Parse','',sweep=dict(kind=[0],t=[0,1,2,3,4,5,6,8]))
case('C24','C24Parse','',sweep=dict(kind=[1,2,3,4,5,6,7]),reach=['parsed'])
case('C24','C24Parse','',sweep=dict(kind=[-1],len=[0,3,12,27]),reach=['rejected'])
case('C24','C24Parse','',sweep=dict(kind=[-1],len=[28]),reach=['rejected'],tier='thorough')
case('C24','C24Parse','',sweep=dict(kind=[-2,-3,-5]),reach=['parsed'])
case('C24','C24Write','',sweep=dict(shape=[0,1,5],t=[0,2,3],old=[0,1,2,3]),reach=['done'])
case('C24','C24Write','',sweep=dict(shape=[2,3,4,6,7],t=[1],old=[1]))
case('C24','C24Write','',sweep=dict(shape=[0],t=[0],old=[1,3],op=[0,1,4,5]),reach=['done'])
case('C24','C24Bad','',reach=['done'])
case('C24','C24Two','',sweep=dict(a=[0,2],b=[5]),reach=['done'])
case('C23','C23Shape','',sweep=dict(shape=[0,5],op=[1,2,3],args=[1]),tier='thorough')
case('C23','C23Cmap','',sweep=dict(format=[0,4,6,12],op=[1,2,3],args=[1]),tier='thorough')

# boundary sizes and other directory orders
case('C01','C01Post25','',sweep=dict(n=[260],at=[0,63,127,128,129,150,200,257,258,-1]))
case('C01','C01Post25','',sweep=dict(n=[130],at=[128,-1]))
case('C01','C01Big','',sweep=dict(n=[0x8001],what=[0,1,2]),steps=60000000)
case('C02','C02Mix','',sweep=dict(rot=[0,1,3,6,9,100]),reach=['valid','invalid'])
case('C02','C02Sums','',sweep=dict(t=[0,5],shape=[2],rot=[1,4,100]),reach=['valid','invalid'])
case('C06','C06Hmtx','',sweep=dict(n=[2,3],k=[1,2,3],opt=[0,1,2],long=[1]),reach=['done'])
case('C06','C06Hmtx','',sweep=dict(n=[5],k=[1,2,3,4,5],opt=[0,1]),reach=['done'])
case('C06','C06Hmtx','',sweep=dict(n=[7,8,9],k=[1,3,6,7],opt=[0,1]),reach=['done'],tier='thorough')
case('C06','C06Many','',sweep=dict(opt=[0,1],n=[257,301],k=[1,256]),reach=['done'])
case('C07','C07Long','',sweep=dict(len=[127,128,255,256,257,1000],format=[0,1],pid=[1],share=[0,1]),reach=['done'])
case('C07','C07Long','',sweep=dict(len=[256,4096,9000],format=[0],pid=[0,3]),reach=['done'])
case('C08','C08High','',sweep=dict(format=[4,6,12]),steps=60000000,reach=['done'])

# after the second batch of planted bugs
case('C09','C09Last','',sweep=dict(arr=[0,1]),reach=['done'])
case('C10','C10List','',sweep=dict(maps=[0,1,2]),reach=['done'])
case('C11','C11Chain','',sweep=dict(beyond=[0,1,3,12],long=[0]),reach=['done'])
case('C11','C11Text','',sweep=dict(maps=[0,1],req=[1,3,6]),reach=['done'])
case('C11','C11Text','',sweep=dict(maps=[0],req=[4],any=[1]),reach=['done'])
case('C11','C11Refs','',sweep=dict(kind=[7],req=[1]),reach=['done'])
case('C12','C11Refs','',sweep=dict(kind=[0,7],req=[1],long=[0]),reach=['done'])
case('C12','C11Refs','',sweep=dict(kind=[2],req=[2],long=[0]),reach=['done'])
case('C12','C11Chain','',sweep=dict(beyond=[0,3],long=[1]),reach=['done'])
case('C12','C11Text','',sweep=dict(maps=[0,1],req=[4,6]),reach=['done'])
case('C12','C11Text','',sweep=dict(maps=[0],req=[4],any=[1]),reach=['done'])
case('C13','C13Run','',sweep=dict(run=[255,256,257]),reach=['done'])
case('C13','C13Planes','',reach=['done'])
case('C13','C13Glyphs','',sweep=dict(shape=[9]),reach=['done'])
case('C14','C14Wide','',sweep=dict(op=[0,1],op2=[0,1,2,3]),reach=['done'])
case('C14','C14Seq','',sweep=dict(shape=[9],op=[0,1,2,3,4,5,6,7,8],op2=[0,4,5]),reach=['done'])
case('C14','C14Seq','',sweep=dict(shape=[0,1,5,7],op=[7,8],op2=[0,5]))
case('C15','C15Comp','',sweep=dict(kind=[2],maps=[3],op=[7]),reach=['done'])
case('C15','C15Seq','',sweep=dict(shape=[0,5,6,9],op=[7,8],op2=[1]),reach=['done'])
case('C15','C15Repeat','',sweep=dict(kind=[2],maps=[0,1,2,3],op=[7],op2=[1]),reach=['done'])
case('C15','C15Repeat','',sweep=dict(shape=[9,6],op=[0,7,8],op2=[0,1]),reach=['done'])
case('C16','C16Seek','',sweep=dict(shape=[0,2],pos=[1]),reach=['failed','passed'])
case('C16','C16WriteAt','',sweep=dict(shape=[0,5],mode=[1,2]),reach=['done'])
case('C17','C17Derived','',sweep=dict(shape=[9],op=[0,1,2,3,4]),reach=['done'])
case('C17','C17Write','',sweep=dict(shape=[9],t=[0,1,2,3]))
case('C18','C18Len','',sweep=dict(len=[32767,32768,32770,65535,65536,65540]),steps=80000000,reach=['done'])
case('C19','C19Prune','',sweep=dict(shape=[9,3,7],names=[2],split=[0],t=[1]),reach=['done'])
case('C19','C19Prune','',sweep=dict(shape=[8],names=[1],split=[0],t=[-1]),reach=['done'])
case('C15','C15Comp','',sweep=dict(kind=[2],maps=[2],op=[7]),reach=['done'],tier='thorough')
# C25
case('C25','C25Args','',sweep=dict(k=list(range(14))),reach=['done'])
case('C25','C25Cmd','',sweep=dict(cmd=[0,1,2,3,4,5],kind=[0,1,2,3,4,5,6,7,8,9]),reach=['done'])
case('C25','C25Cmd','',sweep=dict(cmd=[0,2,3],kind=[0,5],t=[0,1,2,3,4,5,6,8]))
case('C25','C25Cmd','',sweep=dict(cmd=[4,5],kind=[0],t=[0,1,2,4,5,6,8]))
case('C25','C25Cmd','',sweep=dict(cmd=[1],flags=[0,1],kind=[0,2,3,4,5]),reach=['done'])
case('C25','C25Cmd','',sweep=dict(cmd=[0,1,2,3,4,5],kind=[-2,-3,-5],old=[0,1]))
case('C25','C25Cmd','',sweep=dict(cmd=[2],kind=[-4],old=[0,1]),reach=['refused'],steps=60000000)
case('C25','C25Cmd','',sweep=dict(cmd=[2,3,4,5],kind=[2],old=[1]),reach=['done'])
case('C25','C25Cmd','',sweep=dict(cmd=[4],kind=[2],digits=[2]),reach=['done','refused'])
case('C25','C25Cmd','',sweep=dict(cmd=[4],kind=[2],digits=[1],big=[1]),reach=['done','refused'])
case('C25','C25Cmd','',sweep=dict(cmd=[5],kind=[0,2,-3],o=[1,2,3,4]))
case('C25','C25Cmd','',sweep=dict(cmd=[4],kind=[2],two=[1]),reach=['done','refused'])
case('C25','C25Cmd','',sweep=dict(cmd=[4,5],kind=[0],t=[3]),tier='thorough')
case('C25','C25Cmd','',sweep=dict(cmd=[0,2,3,4,5],kind=[1,2,3,4,6,7,8,9],t=[0,1,2,4,5,6,8]),tier='thorough')
case('C25','C25Cmd','',sweep=dict(cmd=[5],kind=[0],bytes=[2]),reach=['done'])
case('C25','C25Cmd','',sweep=dict(cmd=[5],kind=[0],bytes=[3]),reach=['done'],tier='thorough')
case('C25','C25Cmd','',sweep=dict(cmd=[4],kind=[2],digits=[3]),reach=['done','refused'],tier='thorough')
case('C13','C13Last','',reach=['done'])
case('C24','C24Unwritable','',params=dict(kind=-4),sweep=dict(old=[0,1]),steps=60000000,reach=['done'])
case('C16','C16Trunc','',sweep=dict(shape=[2,0],last=list(range(13))),reach=['cut'])
case('C16','C16Read','',sweep=dict(shape=[2],part=[0],eof=[1],chunk=[7],max=[700]),reach=['failed','passed'])
case('C08','C08Long','',reach=['done'])
case('C12','C12Beyond','',reach=['done'])
case('C11','C11Refs','',sweep=dict(kind=[8],req=[1]),reach=['done'])
case('C09','C09Ids','',sweep=dict(wide=[0,1],format=[0,4,6,12]),reach=['done'])
case('C24','C24Full','',sweep=dict(shape=[0,1,3,5,8],op=[-1,0]),reach=['done'])
case('C25','C25Cmd','',sweep=dict(cmd=[2,3,4,5],kind=[2,0],old=[2,3]),reach=['done'])
case('C25','C25Cmd','',sweep=dict(cmd=[4],kind=[2],many=[3,6,14,253,300]),reach=['done','refused'])
# counts at which bytes and small buffers end
case('C02','C02Many','',sweep=dict(n=[60,300]),reach=['valid','invalid'])
case('C03','C03Many','',sweep=dict(n=[60,300],t=[0]),reach=['done'])
case('C07','C07Many','',sweep=dict(n=[300],format=[0,1]),reach=['done'])
case('C07','C07Many','',sweep=dict(n=[2],format=[1],langs=[256]),reach=['done'])
case('C08','C08Segs','',sweep=dict(format=[4,12]),reach=['done'])
case('C09','C09Many','',sweep=dict(n=[20,300]),reach=['done'])
case('C09','C09Segs','',reach=['done'])
case('C10','C10Many','',sweep=dict(at=[0,1,2,3]),reach=['done'])
case('C11','C11Wide','',sweep=dict(what=[0],at=[0,255,256,299]),reach=['done'])
case('C11','C11Wide','',sweep=dict(what=[1],at=[63,64,255,256,299]),reach=['done'])
case('C11','C11Wide','',sweep=dict(what=[2],k=[40,300]),reach=['done'])
case('C11','C11LongText','',sweep=dict(n=[70,300]),reach=['done'])
case('C12','C11Wide','',sweep=dict(what=[0,1,2]),reach=['done'])
case('C12','C11LongText','',sweep=dict(n=[300],at=[255,256]),reach=['done'])
case('C19','C19Many','',sweep=dict(n=[5,300],rep=[0,1,2,3]),reach=['done'])
case('C20','C20Many','',sweep=dict(n=[300],format=[0,1]),reach=['done'])
case('C20','C20Long','',sweep=dict(len=[64,127,128,255,256,1000,4096],pid=[1,3]),reach=['done'])
case('C21','C21Many','',sweep=dict(n=[300],names=[300]),reach=['accepted','rejected'])
case('C21','C21Many','',sweep=dict(n=[300],names=[2,254,255,256,257]))
case('C22','C22Long','',sweep=dict(n=[64,256,1024,4097]),reach=['done'])
case('C22','C22LongDoc','',sweep=dict(n=[64,256,1024,4097]),reach=['done'])
case('C13','C12Beyond','',params=dict(first=1),reach=['done'])
# large tables
case('C16','C16BigCut','large table last, cut around the ends of buffers',sweep=dict(t=[0,4,6],n=[9500]),reach=['cut','whole'])
case('C16','C16BigCut','',sweep=dict(t=[1,2,3,5,7,8],n=[9500]),reach=['cut','whole'],tier='thorough')
case('C16','C16BigCut','',sweep=dict(t=[1],n=[9500],chunk=[1000]),reach=['cut','whole'])
case('C16','C16BigRead','',sweep=dict(t=[0,4],n=[9500],part=[0,1],eof=[0]),reach=['failed','passed'])
case('C16','C16BigRead','',sweep=dict(t=[1,5,7],n=[9500],part=[0,1],eof=[0,1]),reach=['failed','passed'],tier='thorough')
case('C16','C16BigRead','',sweep=dict(t=[0,1,2,3,4,6,8],n=[9500],chunk=[1000],eof=[0]),reach=['failed','passed'],tier='thorough')
case('C16','C16BigWrite','',sweep=dict(t=[1],n=[70000],calls=[1],mode=[0,1,2]),reach=['done'],steps=80000000)
case('C16','C16BigWrite','',sweep=dict(t=[1],n=[70000],mode=[0,1,2]),reach=['done'],steps=80000000)
case('C02','C02Huge','',params=dict(n=70000),reach=['valid','invalid'],steps=200000000)
case('C05','C05Big','',params=dict(long=1,size=70000),reach=['done'],steps=200000000)
case('C09','C09Huge','',params=dict(n=5600),reach=['done'],steps=200000000)
case('C10','C10Private','',sweep=dict(what=[0,1,2]),reach=['done'])
case('C18','C18Hint','',sweep=dict(shape=[3],op=[-1,0,1,3,4,5]),reach=['done'])
case('C20','C20Again','',sweep=dict(n=[3],first=[0,1,2,3]),reach=['done'])
case('C06','C06Many','',sweep=dict(opt=[0,1],n=[300],k=[300],wide=[280]),reach=['done'])
case('C06','C06Many','',sweep=dict(opt=[0,1],n=[300],k=[1,2]),reach=['done'])
case('C01','C01Edge','',sweep=dict(t=[9],long=[0,1]),reach=['accepted','rejected'],steps=80000000)
case('C01','C01Edge','',sweep=dict(t=[11,12],hmtx=[1]),tier='thorough',steps=80000000)
case('C02','C02Dup','',sweep=dict(t=[0,1,2,3],k=[0,1],adj=[0,1]),reach=['valid','invalid'])
case('C07','C07Big','',params=dict(n=80,len=820),reach=['done'],steps=200000000)
case('C07','C07Big','',params=dict(n=80,len=820,at=0),reach=['done'],steps=200000000)
case('C01','C01Edge','',params=dict(t=9,hmtx=1,few=1),reach=['accepted','rejected'],steps=80000000)
case('C12','C12Set','',sweep=dict(n=[6],k=[3]),reach=['done'])
case('C12','C12Set','',sweep=dict(n=[9],k=[4],up=[1]),reach=['done'])
case('C11','C12Set','',sweep=dict(n=[7],k=[7],up=[1],long=[0]),reach=['done'])
case('C12','C12Set','',sweep=dict(n=[12],k=[12],up=[1]),reach=['done'],tier='thorough')
case('C11','C11Refs','',sweep=dict(kind=[9],req=[1]),reach=['done'])
case('C19','C19Any','',sweep=dict(len=[0,1,2,3,4,5,8]),reach=['done'])
case('C19','C19Any','',sweep=dict(len=[3,4],shape=[3],**{'with':[1,2,3]}),reach=['done'])
case('C20','C20Mac','',sweep=dict(lang=[1]),reach=['done'])
case('C20','C20Lang','',sweep=dict(pid=[3],eid=[0,1,10]),reach=['done'])
case('C20','C20Lang','',sweep=dict(pid=[0],eid=[0,1,3,4,6]),reach=['done'])
case('C20','C20Lang','',sweep=dict(pid=[1],eid=[0]),reach=['done'])
case('C21','C21Custom','',sweep=dict(max=[4],any=[1]),reach=['done'])
case('C22','C22Long','',sweep=dict(n=[17000,33000]),reach=['done'],steps=200000000)
case('C22','C22LongDoc','',sweep=dict(n=[33000,66000]),reach=['done'],steps=200000000)
case('C24','C24Names','',params=dict(shape=2),reach=['done'])
case('C25','C25Cmd','',sweep=dict(cmd=[3,4,5],kind=[-4],old=[0,1]),reach=['refused'],steps=60000000)
# everything empty
case('C23','C23Shape','',sweep=dict(shape=[9,10],op=list(range(12))),reach=['done'])
case('C03','C03Input','',sweep=dict(shape=[8,9,10]),reach=['done'])
case('C03','C03Derived','',sweep=dict(shape=[10],op=list(range(7))),reach=['done'])
case('C13','C13Glyphs','',sweep=dict(shape=[10]),reach=['done'])
case('C14','C14Seq','',sweep=dict(shape=[10],op=list(range(9)),op2=[0,5]))
case('C15','C15Seq','',sweep=dict(shape=[10],op=[0,1,3],op2=[0,1]),reach=['done'])
case('C17','C17Derived','',sweep=dict(shape=[10],op=[0,1,2,3,4]),reach=['done'])
case('C18','C18Hint','',sweep=dict(shape=[10],op=[-1,0,1,3,4,5]),reach=['done'])
case('C19','C19Any','',sweep=dict(len=[3,4],shape=[10]),reach=['done'])
case('C24','C24Full','',sweep=dict(shape=[10],op=[-1,0]),reach=['done'])
case('C25','C25Cmd','',sweep=dict(cmd=[0,1,2,3,4,5],kind=[-3]),reach=['done'])
case('C25','C25Cmd','',sweep=dict(cmd=[5],kind=[0,2],o=[5],old=[0,1]),reach=['done'])
case('C08','C08Long','',sweep=dict(seg=[1,2]),reach=['done'],steps=60000000)
# glyph indices beyond 15 bits, tables beyond 64 KB and a megabyte
case('C05','C05Large','',sweep=dict(long=[0,1]),reach=['done'],steps=400000000)
case('C06','C06Large','',sweep=dict(opt=[0,1]),reach=['done'],steps=400000000)
case('C06','C06Large','',params=dict(opt=1,k=32900),reach=['done'],steps=400000000)
case('C11','C11Large','',params=dict(req=0),reach=['done'],steps=400000000)
case('C12','C11Large','',params=dict(long=1,req=3),reach=['done'],steps=400000000)
case('C11','C11Large','',params=dict(long=1),reach=['done'],steps=400000000,tier='thorough')
case('C13','C13Large','',params=dict(k=32900,first=1),reach=['done'],steps=400000000)
case('C13','C13Large','',sweep=dict(k=[1,32900]),reach=['done'],steps=400000000,tier='thorough')
case('C13','C13Groups','',params=dict(k=400,first=7,near=1),reach=['done'])
case('C13','C13Groups','',reach=['done'],tier='thorough')
case('C03','C03Huge','',sweep=dict(t=[1,2]),reach=['done'],steps=400000000)
case('C03','C03Huge','',params=dict(t=1,len=1100000),reach=['done'],steps=3000000000)
case('C08','C08Far','',reach=['done'],steps=400000000)
case('C09','C09Empty','',reach=['done'])
case('C09','C09Groups','',reach=['done'],steps=400000000)
case('C02','C02Tag','',sweep=dict(what=[0,1]),reach=['valid','invalid'])
case('C02','C02Overlap','',reach=['valid','invalid'])
case('C17','C17Tag','',sweep=dict(shape=[2,0]),reach=['done'])
case('C07','C07Prefix','',sweep=dict(format=[0,1],pid=[1,3]),reach=['done'])
case('C20','C20Wide','',reach=['done'])
case('C24','C24History','',sweep=dict(shape=[2,3]),reach=['done'])
case('C24','C24Size','',reach=['done'],steps=400000000)
# more metrics than glyphs; tables longer than needed
for c in (11,12):
    case('C23','C23Shape','',sweep=dict(shape=[c],op=list(range(12))),reach=['done'])
    case('C03','C03Input','',sweep=dict(shape=[c]),reach=['done'])
    case('C03','C03Derived','',sweep=dict(shape=[c],op=list(range(7))),reach=['done'])
    case('C13','C13Glyphs','',sweep=dict(shape=[c]),reach=['done'])
    case('C14','C14Seq','',sweep=dict(shape=[c],op=list(range(9)),op2=[0,5]))
    case('C15','C15Seq','',sweep=dict(shape=[c],op=[0,1,3],op2=[0,1]),reach=['done'])
    case('C15','C15Repeat','',sweep=dict(shape=[c],op=[0,1],op2=[0,1]),reach=['done'])
    case('C15','C15Self','',sweep=dict(shape=[c],t=[0,5]),reach=['done'])
    case('C17','C17Derived','',sweep=dict(shape=[c],op=[0,1,2,3,4]),reach=['done'])
    case('C18','C18Hint','',sweep=dict(shape=[c],op=[-1,0,1,3,4,5]),reach=['done'])
    case('C19','C19Any','',sweep=dict(len=[3,4],shape=[c]),reach=['done'])
    case('C24','C24Full','',sweep=dict(shape=[c],op=[-1,0]),reach=['done'])
# tables alike
case('C03','C03Equal','',sweep=dict(len=[4,8]),reach=['done'])
case('C03','C03Equal','',sweep=dict(glyf=[1],long=[0,1]),reach=['done'])
case('C18','C03Equal','',sweep=dict(len=[8]),reach=['done'])
# C26
case('C26','C26List','',sweep=dict(len=list(range(25))),reach=['done'])
case('C26','C26List','',sweep=dict(len=[1,4],more=[10,200],after=[1],rev=[0,1]),reach=['done'])
case('C26','C26List','',sweep=dict(tag=[1],len=[3,12]),reach=['done'])
case('C26','C26Tables','',sweep=dict(shape=list(range(13))),reach=['done'])
case('C26','C26Tables','',sweep=dict(shape=list(range(13)),op=[0,1,3,4,5,6]))
case('C26','C26Tables','',sweep=dict(shape=[0,1,5,7],drop=[0,1,2,3,4,5]),reach=['done'])
case('C26','C26Any','',sweep=dict(shape=[0,2],len=[0,2,3,4]),reach=['unknown'])
case('C09','C09Alias','',sweep=dict(format=[0,4,6,12]),reach=['done'])
case('C09','C09Alias','',sweep=dict(format=[0,6],other=[1,3]),reach=['done'])
case('C10','C10ByMap','',sweep=dict(format=[0,1,2],first=[0,1,2,3]),reach=['done'])
case('C15','C15Seq','',sweep=dict(shape=[0,5],op=[0,1,3],t=[1,4,5,6]),reach=['done'])
case('C24','C24Parse','',sweep=dict(kind=[-6]))
# C27
case('C27','C27Derived','',sweep=dict(shape=[c for c in range(13) if c!=8],op=[0,1,5]),reach=['done'])
case('C27','C27Derived','',sweep=dict(shape=[8],op=[3,5]),reach=['done'])
case('C27','C27Derived','',sweep=dict(shape=[8],op=[0,1,2,6,8]),reach=['done'],tier='thorough')
case('C27','C27Derived','',sweep=dict(shape=[0,1,4,5,11,12],op=[0,1,3,5],t=[1,4,5,6,8]))
case('C27','C27Derived','',sweep=dict(shape=[0,1,4,5,11,12],op=[2,6,7,8],t=[1,4,5,6,8]),tier='thorough')
case('C27','C27Derived','',sweep=dict(shape=[0,5],op=[0,1],t=[9]),reach=['done'])
case('C27','C27Derived','',sweep=dict(shape=[2],op=[0,1,5],os2=[0,1,2,3,4,5]),reach=['done'])
case('C27','C27Derived','',sweep=dict(shape=[0,5],op=[0,1],drop=[0,1,2]),reach=['done'])
case('C27','C27Derived','',sweep=dict(shape=[0,5],op=[0,1,3],prune=[1]),reach=['done'])
case('C27','C27Derived','',sweep=dict(shape=[0,5],op=[0,1,3],op2=[0,5],pre=[1]),reach=['done'])
case('C27','C27Derived','',sweep=dict(shape=[0,5,8],op=[0,1,3],op2=[0,5,7],pre=[1]),reach=['done'],tier='thorough')
case('C15','C15Comp','',sweep=dict(kind=[1,3,5,7,8,9],metrics=[2],op=[1]),reach=['done'])
case('C18','C18Hint','',sweep=dict(shape=[2,5],op=[-1,0,1,3],len=[20,34]),reach=['done'])
case('C25','C25Cmd','',sweep=dict(cmd=[4],kind=[2],digits=[1],big=[1],low=[1]),reach=['done','refused'])
# C28
case('C28','C28Use','',sweep=dict(shape=[0,1,2,3,4,5,6,7,9,10,12]),reach=['done'])
case('C28','C28Use','',sweep=dict(shape=[11]))
case('C28','C28Use','',sweep=dict(shape=[8]),tier='thorough')
case('C28','C28Use','',sweep=dict(shape=[0,5],what=[1,2,3,4,12,14,15]),reach=['done'])
case('C28','C28Use','',sweep=dict(shape=[2],what=[5,8,9],few=[2]),reach=['done'])
case('C28','C28Use','',sweep=dict(shape=[2],what=[6],few=[3]),reach=['done'])
case('C28','C28Use','',sweep=dict(shape=[0,5],what=[5,6,8,9],few=[1]),reach=['done'],tier='thorough')
case('C28','C28Use','',sweep=dict(shape=[2],what=[10]),reach=['done'])
case('C28','C28Use','',sweep=dict(what=[7],maps=[0,1,2,3],few=[2]),reach=['done'])
case('C28','C28Use','',sweep=dict(what=[11],kind=list(range(10)),few=[1]),reach=['done'])
case('C28','C28Use','',sweep=dict(what=[11],kind=list(range(10)),long=[0,1]),reach=['done'],tier='thorough')
case('C28','C28Use','',sweep=dict(shape=[2],what=[12],more=[16]),reach=['done'])
case('C28','C28Use','',sweep=dict(what=[13],metrics=[1,2,4],long=[0,1]),reach=['done'])
case('C28','C28Use','',sweep=dict(shape=[0,5],true=[1]),reach=['done'])
case('C28','C28Large','',sweep=dict(n=[33000],use=[0,1,2]),reach=['done'],steps=400000000)
case('C28','C28Large','',sweep=dict(n=[65535],long=[1],use=[0,2,3]),reach=['done'],steps=400000000,tier='thorough')
case('C28','C28Use','',sweep=dict(shape=[2],what=[12],more=[70,300],few=[2]),reach=['done'],steps=40000000)
case('C28','C28Use','',sweep=dict(shape=[2],what=[16],len=[0,255,1026,4098],few=[2]),reach=['done'],steps=40000000)
case('C28','C28Use','',sweep=dict(shape=[2],what=[16],len=[16390,33000],few=[3]),reach=['done'],steps=200000000)
case('C28','C28Use','',sweep=dict(what=[17],len=[9,17,34,130],few=[2]),reach=['done'],steps=40000000)
case('C27','C27Derived','',sweep=dict(shape=[0,5],op=[0,5],prune=[1],drop=[0,1,2]),reach=['done'])
