// Compares answers written by `mon upstream --count N --seed S` with those of the JavaScript
// library (source-map 0.7.6) that this crate is a translation of. Not part of any check: it
// validates the oracles. Known differences: see DESIGN.md, "Upstream".
const P='/opt/veriftools/node/node_modules/@stryker-mutator/core/node_modules/source-map/';
const {SourceMapConsumer}=require(P+'source-map.js'); const util=require(P+'lib/util.js');
const rl=require('readline').createInterface({input:process.stdin});
const J=JSON.stringify; let n=0,bad=0,by={};
function cmp(kind,got,want,ctx){ n++; by[kind]=(by[kind]||0)+1; if(J(got)!==J(want)){ bad++; if(bad<=(+process.env.MAXBAD||20)) console.log('DIFF',kind,'rust',J(got),'js',J(want),ctx); } }
const t=(f)=>{try{return f()}catch(e){return 'THROW '+e.message}};
(async()=>{ for await (const line of rl){ const d=JSON.parse(line);
 if(d.k==='source') cmp('source',d.got,t(()=>util.computeSourceURL(d.root,d.source,d.url)),J([d.root,d.source,d.url]));
 else if(d.k==='join') cmp('join',d.got,t(()=>util.join(d.a,d.b)),J([d.a,d.b]));
 else if(d.k==='relative') cmp('relative',d.got,t(()=>util.relative(d.a,d.b)),J([d.a,d.b]));
 else { let c; try{ c=await new SourceMapConsumer(d.map,d.url===null?undefined:d.url);}catch(e){ console.log('CTOR',e.message,d.map.slice(0,600)); bad++; continue;}
  cmp('sources '+d.k,d.sources,c.sources,d.map.slice(0,500)+' url '+d.url);
  let spans=false;
  for(const q of d.q){ const ctx=()=>J(q).slice(0,300)+' in '+d.map.slice(0,1500)+' url '+d.url;
   if(q[0]==='spans'){c.computeColumnSpans();spans=true;}
   else if(q[0]==='o'){ const r=t(()=>c.originalPositionFor({line:q[1],column:q[2],bias:q[3]})); const w=typeof r==='string'?r:(r.line===null&&r.source===null?null:[r.source,r.line,r.column,r.name]); cmp('o '+d.k,q[4],w,ctx()); }
   else if(q[0]==='g'){ const r=t(()=>c.generatedPositionFor({source:q[1],line:q[2],column:q[3],bias:q[4]})); let w=typeof r==='string'?r:(r.line===null?null:d.k==='basic'?[r.line,r.column,r.lastColumn===Infinity?-1:r.lastColumn===null?null:r.lastColumn+1]:[r.line,r.column]); cmp('g '+d.k,q[5],w,ctx()); }
   else if(q[0]==='a'){ const o={source:q[1],line:q[2]}; if(q[3]!==null)o.column=q[3]; const r=t(()=>c.allGeneratedPositionsFor(o)); const w=typeof r==='string'?r:r.map(m=>[m.line,m.column,(m.lastColumn===Infinity||m.lastColumn===null)?null:m.lastColumn+1]); cmp('a',q[4],w,ctx()); }
   else if(q[0]==='content'){ cmp('content '+d.k,q[2],t(()=>{const r=c.sourceContentFor(q[1],true); return r===undefined?null:r;}),ctx()); cmp('all contents '+d.k,q[3],t(()=>c.hasContentsOfAllSources()),ctx()); }
   else if(q[0]==='each'){ const rows=[]; c.eachMapping(m=>rows.push(m),null,q[1]?2:1); const S=c.sources;
     const w=rows.map(m=>[m.generatedLine-1,m.generatedColumn,(m.lastGeneratedColumn===Infinity||m.lastGeneratedColumn===null)?null:m.lastGeneratedColumn+1,m.source,m.originalLine===null?null:m.originalLine-1,m.originalColumn,m.name]);
     const names=JSON.parse(d.map).names||[]; const g=q[2].map(m=>[m[0],m[1],m[2],m[3]===null?null:S[m[3]],m[4],m[5],m[6]===null?null:names[m[6]]]); cmp('each',g,w,ctx()); }
  } c.destroy&&c.destroy(); } }
 console.log(n,'compared',bad,'differ',J(by)); })();
