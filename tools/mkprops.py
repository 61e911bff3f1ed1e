import json
P=[]
def OV(o):
    m={'faults':['fault_sequences','crash_points'],'randomness':['fault_sequences']}
    r=[]
    for x in o:
        for y in m.get(x,[x]):
            if y not in r: r.append(y)
    return r

def p(id,title,stmt,over,qtext,why,files,mech,state,observe):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=OV(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name='state',where=files[0],meaning=state)],observe_at=[observe],hook_needed=None)))
T='tracer/'
p('C01','Each ray goes on from the first surface it really meets',
 'Whatever was built, moved, traced, interrupted or run concurrently before, each live ray is continued exactly from the nearest point ahead of it on any surface of the scene that it is allowed to hit (inside that surface\'s aperture, not the point it starts from), and a ray that meets nothing produces no continuation. This holds for every geometry and ready-made model (flat, rectangular, round and triangular plates, triangulated faces, spheres, hemispheres, cut spheres, cylinders, paraboloids, dishes, lenses, homogenizers, one-sided mirrors), for nested frames, and for rays starting on a surface, inside it, or parallel to it.',
 ['inputs','histories','schedules','faults'],'every scene, bundle, edit history, bounce number, interleaving with other traces and earlier interrupted trace',
 'Tests place a few hand-computed rays on one fresh surface; which surface is first depends on all surfaces, their frames and on state that the engine and the geometry managers carry between the protocol steps of each bounce.',
 [T+'tracer_engine.py',T+'quadric.py',T+'flat_surface.py',T+'sphere_surface.py',T+'cylinder.py',T+'paraboloid.py',T+'triangular_face.py',T+'boundary_shape.py',T+'models/triangulated_surface.py',T+'models/spherical_lens.py',T+'models/homogenizer.py',T+'models/one_sided_mirror.py'],
 [('nearest-hit selection','TracerEngine.intersect_ray'),('root selection and aperture trimming','QuadricGM.find_intersections, *_select_coords, FiniteFlatGM.find_intersections')],
 'per-surface and per-geometry working frame, bundle, parameters and hit points kept between register_incoming, select_rays, get_outgoing and done','vertices of each bundle of the ray tree against an independent scalar model stepped from the recorded parent ray')
p('C02','Outgoing directions obey reflection and Snell, on the right side',
 'Each ray leaving a specular surface has the mirrored direction; each ray hitting a refractive boundary gives a mirrored ray in the old medium and, unless it is beyond the critical angle, exactly one ray refracted by Snell\'s law on the far side carrying the other refractive index. Directions stay unit vectors over any number of bounces, and no direction, index or position is ever NaN, at any incidence (normal, grazing, critical) and in any session history.',
 ['inputs','histories','schedules','faults'],'every geometry, side of incidence, index pair, incidence angle, bounce number, and session history',
 'Tests check a handful of angles on flat plates; the law must hold at the local normal of every geometry, for rays from either side, after every earlier bounce.',
 [T+'optics.py',T+'optics_callables.py',T+'quadric.py',T+'sphere_surface.py',T+'cylinder.py',T+'paraboloid.py',T+'flat_surface.py'],
 [('reflection, refraction','optics.reflections, optics.refractions'),('index toggling','RefractiveHomogenous'),('normals','get_normals of each geometry manager')],
 'directions and refractive indices of successive bundles','directions and refractive indices of each bundle of the ray tree against the scalar model')
p('C03','Energy is conserved at every hit and never created',
 'At every hit the energies of the outgoing rays plus what the surface absorbs equal the incoming ray\'s energy: a surface of absorptivity a passes on the fraction 1-a, the back of a one-sided mirror or receiver passes on nothing, and a refractive boundary splits all of it between reflected and refracted ray by Fresnel\'s unpolarised reflectance. Hence in any session no energy is ever negative, NaN or larger than its parent\'s, and the total over all live, escaped, weak and absorbed energy equals what the source emitted.',
 ['inputs','histories','schedules','faults'],'every scene without coincident surfaces, bundle, bounce number and session history',
 'Tests compare a few energies after one hit; conservation is a statement about whole branching histories.',
 [T+'optics_callables.py',T+'optics.py',T+'tracer_engine.py',T+'models/one_sided_mirror.py'],
 [('absorption','Reflective, AbsorberReflector, LambertianReflector'),('Fresnel split','RefractiveHomogenous, optics.fresnel'),('weak-ray bookkeeping','TracerEngine.ray_tracer')],
 'energy arrays of all bundles, receivers\' accumulated energy','per-parent sums over the ray tree and get_all_hits() against the model')
p('C04','The ray tree records every ray with its true parent',
 'After a trace the ray tree holds the source bundle and then one bundle per bounce, containing every ray generated by that bounce exactly once, the ones still followed first and those discarded as too weak after them; each recorded parent index points at the ray that really produced it, so that following the parents (or asking for a ray\'s history, also from an intermediate bundle) leads back to the right source ray. With tree recording off only the last bounce is kept, and the returned vertices and directions are those of the rays still followed.',
 ['inputs','histories','schedules','faults'],'every scene, threshold, branching pattern, number of bounces, ownership pattern and session history',
 'Parent indices pass through three re-indexings (selection, ownership, weak-ray removal); an error shows up only with particular mixes of missing, weak, owned and branching rays over several bounces.',
 [T+'tracer_engine.py',T+'trace_tree.py',T+'ray_bundle.py'],
 [('parent re-indexing and weak-ray reordering','TracerEngine.ray_tracer'),('history query','RayTree')],
 'RayTree bundles and their parent arrays','RayTree indexing, num_bunds, ordered_parents, ray_history and the return value, keyed by unique tags carried by the rays')
p('C05','A ray\'s path does not depend on its companions or on build order',
 'Tracing a bundle in any split into smaller bundles, in any order of rays, with any order of surfaces and objects in the scene, with recording on or off, with a fresh or an already used engine or scene, gives each ray the same path, energies and absorption. The same holds when the parts are traced concurrently on separate copies of the scene.',
 ['inputs','histories','schedules'],'every split, permutation, order of construction and repetition, for deterministic optics and scenes without exact ties',
 'It relates many runs to each other; tests look at one run at a time.',
 [T+'tracer_engine.py',T+'quadric.py',T+'flat_surface.py',T+'ray_bundle.py',T+'assembly.py'],
 [('vectorised selection over a whole bundle','TracerEngine.intersect_ray, find_intersections')],
 'none beyond the bundle and scene','multisets of ray paths compared between runs')
p('C06','An interrupted trace leaves nothing behind',
 'If a trace is cut short at any instant (keyboard interrupt, memory failure, an exception from a user-supplied optics callable or surface), the same scene, engine, surfaces and optics can be used again at once: the next trace gives exactly the result it would give had the interrupted one never been started. The interrupted trace leaves the source bundle, every frame, and the process-wide numeric error settings as they were, and receivers hold only complete hits.',
 ['faults','histories'],'every point of execution at which a trace can be interrupted, every scene and every later operation',
 'The interrupt can land between any two statements of any protocol step; tests never interrupt a trace.',
 [T+'tracer_engine.py',T+'surface.py',T+'geometry_manager.py',T+'quadric.py',T+'flat_surface.py',T+'sphere_surface.py',T+'triangular_face.py',T+'optics_callables.py'],
 [('leftover working data discarded or overwritten','done() and find_intersections() of the geometry managers, Surface'),('error-state guard','FiniteFlatGM.find_intersections')],
 'attributes left on surfaces and geometry managers by an unfinished iteration; numpy error state','results of later traces against an uninterrupted twin session; numpy.geterr(); get_all_hits()')
p('C07','Independent traces running at once do not disturb each other',
 'Traces of separate scenes may run in several threads, or one inside a user callback of another, in any interleaving, also when they share a source bundle, an optics object or a receiver: each gives exactly the result it gives when run alone. A shared receiver ends up with every hit of every trace exactly once, each energy with its own point.',
 ['schedules','histories'],'every interleaving of the statements of several traces and edits on disjoint scenes with deterministic optics',
 'Only a scheduler that chooses the interleaving can find and replay the one that matters; tests are single-threaded.',
 [T+'tracer_engine.py',T+'surface.py',T+'geometry_manager.py',T+'quadric.py',T+'flat_surface.py',T+'optics_callables.py',T+'assembly.py',T+'has_frame.py'],
 [('all working state lives in per-scene objects','GeometryManager, Surface, TracerEngine'),('single-append hit log','AbsorptionAccountant')],
 'absence of module- or class-level mutable state','trees and receivers of each task against the same task run alone')
p('C08','World pose is the composition of all frames after any edit history',
 'After any sequence of building, nesting, adding, moving and rotating of assemblies, objects and surfaces (with traces in between), every surface is traced, meshed and converted to local coordinates at exactly the product of its containers\' transforms and its own, outermost first. Moving one thing moves it with everything inside it and nothing else, and reading a frame gives back the location, rotation and transform that were set.',
 ['inputs','histories'],'every hierarchy and every order of frame edits at every level, including through the ready-made models',
 'The global frame is cached in each surface and refreshed by pushes from several entry points; a missed push shows only after particular edit sequences.',
 [T+'has_frame.py',T+'assembly.py',T+'object.py',T+'surface.py',T+'models/homogenized_local_receiver.py',T+'models/homogenizer.py',T+'models/heliostat_field.py'],
 [('push of container transforms','transform_children, transform_frame'),('edit entry points','set_location, set_rotation, set_transform, add_object, add_assembly, add_surface')],
 'local transform and cached global frame of every node','global_to_local, mesh, intersection parameters, get_location/get_rotation/get_transform against a mirrored tree')
p('C09','A receiver counts every hit exactly once, energy with its point',
 'Between two resets a receiver reports exactly one entry for each ray that reached it in completed bounces of any trace: the point where it hit and the energy absorbed there, paired, wherever the receiver sits and however many traces, bounces, edits or concurrent traces there were. Resetting forgets exactly what was recorded before, and the receiver\'s energy histogram has the local bins of its plate and adds up to the reported energy.',
 ['inputs','histories','schedules','faults'],'every sequence of traces, resets, moves and queries, and every interleaving of traces on a shared receiver',
 'Tests trace once and look once; accounting errors come from repetition, resets, empty hits and interleavings.',
 [T+'optics_callables.py',T+'models/homogenized_local_receiver.py',T+'surface.py'],
 [('hit log','AbsorptionAccountant'),('binning','HomogenizedLocalReceiver.histogram_hits, Surface.global_to_local')],
 'hit log of the receiver','get_all_hits(), reset(), histogram_hits() against a ledger rebuilt from the ray trees')
p('C10','Caller data is never modified and delivered results never change',
 'No trace, frame edit or query modifies the arrays or bundles that the caller passed in (source rays, transforms, locations, positions), and nothing delivered earlier (ray trees, bundles, hit arrays, meshes, histograms) changes when the session continues or when the caller overwrites another delivered result. A frame keeps its pose when the caller reuses the array that set it, and a bundle derived from another by inheriting, deleting or adding shares no data with it.',
 ['inputs','histories','faults'],'every operation sequence, with buffers overwritten by the caller at any point in between',
 'Aliasing is invisible until a particular later operation writes through it.',
 [T+'ray_bundle.py',T+'has_frame.py',T+'optics_callables.py',T+'tracer_engine.py',T+'models/heliostat_field.py'],
 [('copying on inherit/concatenate','RayBundle'),('copying of frames','HasFrame')],
 'arrays shared between bundles, frames, hit logs and the caller','byte-for-byte digests of everything passed in and delivered, after every later operation')
p('C11','Random sources keep their promised envelope, energy and distribution',
 'Whatever the random generator delivers, including its extreme values, a solar-disk bundle has exactly the requested number of rays, all starting on the disk around the centre perpendicular to the axis, unit directions deviating from the axis by at most the given angle, and energies adding up to flux times disk area; a square bundle has one unit direction along the axis for each point of its regular grid, which lies within the given half-width in the plane through the centre perpendicular to the axis. Starting points are uniform over the disk and directions have the pillbox distribution, independent of each other and of the axis chosen, and the same seed gives the same bundle.',
 ['inputs','randomness'],'every random stream, ray count, axis, radius, angular range and flux',
 'Tests draw one sample; envelope breaches need extreme draws and distribution errors need many.',
 [T+'sources.py',T+'spatial_geometry.py'],
 [('sampling','pillbox_sunshape_directions, solar_disk_bundle, square_bundle')],
 'numpy global random generator','vertices, directions and energy of the bundle under simulated random streams')
p('C12','Diffuse surfaces scatter into the lit side by the cosine law',
 'Every ray leaving a diffuse surface starts at the hit point and is a unit vector on the side the parent ray came from, for every geometry, side of incidence and random draw, with the energy 1-a of its parent. Over many hits the directions follow Lambert\'s law about the local normal (the squared sine of the polar angle uniform, azimuth uniform and independent), with a fresh draw for each ray.',
 ['inputs','randomness','histories'],'every geometry, pose, incidence and random stream',
 'A wrong rotation or reused draw passes single-ray tests; only extreme draws and large samples reveal it.',
 [T+'optics_callables.py',T+'sources.py',T+'spatial_geometry.py'],
 [('random direction rotated onto normals','LambertianReflector')],
 'numpy global random generator','directions in the ray tree against normals of the scalar model')
p('C13','The engine honours the surface, ownership and relevancy protocol',
 'For user-written surfaces and objects, in each bounce the engine offers each surface exactly those rays that are not owned by another object and not declared irrelevant for it, then has exactly the rays that hit it first selected and continued, and releases every surface, in that order. Ownership and relevancy answers apply to exactly the rays they were given for, for the next bounce only.',
 ['inputs','histories','schedules'],'every scripted pattern of hits, misses, branching, ownership and relevancy over several bounces',
 'The built-in objects exercise two trivial patterns; index errors need mixes of several objects, owned subsets and weak rays.',
 [T+'tracer_engine.py',T+'object.py',T+'surface.py'],
 [('ownership and relevancy bookkeeping','TracerEngine.intersect_ray, TracerEngine.ray_tracer')],
 'ray_ownership, surfs_relevancy','the sequence of calls received by scripted surfaces and the resulting tree against an executable protocol model')
p('C14','Tracing stops: bounded bounces, weak and escaping rays end',
 'A trace makes at most the requested number of bounces and stops as soon as no ray is left to follow; a ray with energy at or below the threshold is still recorded where it arose but never continued, one above it always is, as long as bounces remain. Whenever each closed path loses a fixed share of energy, a trace with a practically unlimited number of bounces ends after a number of steps bounded by the energy ratio, also after interruptions and whatever the random generator delivers.',
 ['inputs','histories','randomness','faults'],'every bounce limit, threshold (equal to, just below and just above ray energies), scene and random stream',
 'Tests use generous limits; boundary thresholds and unbounded loops are not exercised.',
 [T+'tracer_engine.py',T+'ray_bundle.py'],
 [('iteration and weak-ray cutoff','TracerEngine.ray_tracer')],
 'current bundle, number of iterations','tree depth, continuation of each recorded ray, simulated step budget')
p('C15','Heliostats send the sun to the target after any history of aiming',
 'After any sequence of re-aimings, target-height changes and moves of the field, every heliostat stands at its own position with its mirror normal halfway between the sun and the target as of the last aiming, in the field\'s frame (a new target height takes effect at the next aiming), so that a ray coming from the sun to the mirror\'s centre is reflected through the target; before the first aiming all face down. The field\'s positions and the arrays given by the caller never drift.',
 ['inputs','histories'],'every field, sun direction, target height, and sequence of aim, retarget and move',
 'Tests aim once from the initial state at one sun position.',
 [T+'models/heliostat_field.py',T+'models/one_sided_mirror.py',T+'assembly.py'],
 [('aiming','HeliostatField.aim_to_sun, solar_vector')],
 'heliostat transforms, target height','traced rays through mirror centres, heliostat transforms')
p('C16','Extra ray properties and bundle algebra follow the rays',
 'Through any sequence of selecting, inheriting with overrides, adding, concatenating and deleting of bundles, and through every bounce of a trace, each ray keeps its own values of all its properties, standard and user-defined, of any number of rows, except those explicitly overridden. Deleting keeps exactly the other rays in order, adding keeps the rays of both in order.',
 ['inputs','histories'],'every sequence of bundle operations, property set and selector form',
 'Properties are attached dynamically and copied at each step; loss or misalignment needs particular sequences and subsets.',
 [T+'ray_bundle.py',T+'optics_callables.py',T+'tracer_engine.py'],
 [('dynamic properties','RayBundle._create_property, inherit, __add__, delete_rays, concatenate_rays')],
 'per-bundle property set','getters of all bundles against a list-of-records model')
p('C17','The 3D view shows exactly the current scene and ray paths',
 'After any sequence of user actions on the scene view (replace assembly or source, move, add or remove parts, change trace limits, clear, redraw, failing traces), the view holds one mesh per drawn surface at that surface\'s pose when last drawn and none for removed ones, and line segments from exactly each shown ray\'s start to its next hit or, if it has none, to a point at the escape length along it. Rays with no energy and rays not selected are not drawn, and rendering is enabled again after every action, failed or not.',
 ['histories','faults','inputs'],'every sequence of view actions and trace failures',
 'There is no test of the view, and its bookkeeping depends on the action history.',
 [T+'mayavi_ui/scene_view.py'],
 [('mesh bookkeeping','TracerScene'),('segments','show_rays')],
 'mesh registry, current lines, render flag','calls received by a recording stand-in of the plotting library, against segments derived from a separate trace')
p('C18','The assembly tree mirrors the assembly and keeps captions',
 'After any sequence of showing, renaming, growing and re-showing assemblies, the tree has one entry for each sub-assembly, object and surface in its place, captioned by the item\'s own caption, or, when it has none, by its kind and position number, which it then keeps (the shown top assembly reads "Top assembly" instead and gets no caption of its own). Renaming an entry changes the caption of exactly that item and survives re-showing.',
 ['histories'],'every hierarchy and sequence of set, rename, add and re-show events',
 'The widget\'s tests do not run without a display and look at one fresh assembly.',
 [T+'qt/assembly_tree.py'],
 [('population and caption tags','AssemblyTree, AssemblyTreeItem')],
 'caption tags on model items, connected slots','items held by a stand-in of the widget library, against a model of the hierarchy')
NA=[('N01','Meshes lie on their surfaces','Every mesh point that a geometry reports lies on that surface and inside its aperture, to the requested resolution.',[T+'flat_surface.py',T+'sphere_surface.py',T+'paraboloid.py',T+'cylinder.py',T+'triangular_face.py'],'mesh() of the geometry managers'),
('N02','Lens focal length and thickness follow from its prescription','A lens built from radii, depth and index reports the lensmaker focal length and focuses paraxial rays there.',[T+'models/spherical_lens.py'],'SphericalLens'),
('N03','Field-layout and dish-sizing utilities give the documented dimensions','Radial-stagger layouts and standard dish measures satisfy their published formulas.',[T+'models/heliostat_field.py',T+'models/tau_minidish.py'],'radial_stagger, standard_minidish_measures'),
('N04','Rotation and transform helpers give proper rotations','Every helper returns an orthonormal right-handed matrix with the stated action.',[T+'spatial_geometry.py'],'spatial_geometry functions'),
('N05','Dispersion helper evaluates the documented formula','The refractive index at a wavelength equals the documented dispersion equation.',[T+'optics.py'],'refr_idx_hartmann'),
('N06','Bounding rectangles contain the cut of boundary and plane','The rectangle reported for a plane contains the intersection of the boundary shape with it.',[T+'boundary_shape.py'],'bounding_rect_for_plane')]
for id,t,s,f,m in NA:
    p(id,t,s,['inputs'],'every input','a pure function of its arguments, with no history, schedule or fault in it',f,[('computation',m)],'none','return value')
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
